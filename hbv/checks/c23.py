"""C23: filling from a Spark DataFrame equals filling from arrays."""
import fractions
import math
import threading

import numpy
import histbook

from hbv import exprs, gen, model, observe, pyeval
from hbv import sparkstandin as spark
from hbv.checks import c04, c11

spark.install()

QUICK, THOROUGH = 8000, 150000
KINDS = ["bin", "split", "intbin", "cut", "groupby", "groupbin"]
# functions with a counterpart in Spark, inside their domains
MUST = ["abs(a)", "fabs(a)", "max(a, b)", "max(a, b, c)", "min(a, b, c)", "fmax(a, b)", "fmin(a, b)", "arccos(a/8)", "arcsin(a/8)", "arctan(a)", "arctan2(abs(a) + 1, abs(b) + 0.5)", "ceil(a)", "floor(a)", "cos(a)", "cosh(a)",
        "rad2deg(a)", "deg2rad(a)", "exp(a)", "expm1(a)", "hypot(a, b)", "log10(abs(a) + 1)", "log1p(abs(a))", "log(abs(a) + 1)", "log2(abs(a) + 1)", "pow(a, 2)", "pow(abs(a) + 1, 0.5)", "sin(a)", "sinh(a)",
        "sqrt(abs(a) + 1)", "tan(a/4)", "tanh(a)", "rint(a)", "where(a > b, a, c)", "a + b", "a - b", "a*b", "a/(abs(b) + 1)", "-a", "a % 2", "a % -2", "i % 3", "i % -3", "mod(a, 1.5)", "a**2", "a**3*b", "a**-2*(a*a + 1)", "2*a + 3*b - c*4 + 1",
        "a*a*b*b", "(a + b)*(a - b)", "a*b/(abs(c) + 1)", "i + j", "i*j", "i/4", "factorial(i*i % 6)"]
MUSTBOOL = ["p", "not p", "a > b", "a >= b", "a < b", "a <= b", "a == b", "a != b", "0 < a < 2", "p and q", "p or q", "p and not q", "a > b and (p or b > c)", "not (a > b or p)", "i in {1, 2}", "i not in {1, 2}", "s in {'one', 'two'}",
            "s not in {'one'}", "s == 'one'", "s != t", "s < 'p'", "isnan(a)", "a > 0 or b > 0 or p", "a == 1 or i == 1", "i % 2 == 1"]
RULE = "a case = a histogram or book filled from the same events as a DataFrame (also in several parts, mixed with array fills, with failing queries) against the model, or an expression computed for a DataFrame against Python's evaluation; distinct = (specification, how it was filled)"
REQUIRED = (["on_" + k for k in KINDS] + ["no_" + f for f in ("u", "o", "nan", "cl")] + ["hists", "books", "weighted", "filtered", "both", "with_profiles", "with_defs", "several_fills", "mixed_with_arrays", "empty_frames",
            "nan_events", "nan_weights", "infinite_events", "negative_group_values", "nested_books", "same_hist_twice", "queries_collected", "queries_delayed", "faults_injected", "keywords_refused",
            "must_functions", "must_booleans", "values_compared", "booleans_compared", "random_expressions", "unsupported_refused", "columns_missing", "copyonfill", "large_frames"])
ASSUMPTIONS = ["PySpark is not installed: a stand-in evaluates its columns with the semantics of Spark SQL",
               "fields are doubles, 64-bit integers, booleans or strings without nulls; profiles and expressions are finite (weights may be fields with NaN); axes of bins with exactly representable edges"]


def frame(session, data, fields=None, extra=()):
    names = sorted(fields if fields is not None else data.arrays)
    columns = list(names) + list(extra)
    rows = []
    for r in data.rows:
        row = dict((n, r[n]) for n in names)
        row.update((n, 1.5) for n in extra)
        rows.append(row)
    session.rng.shuffle(rows)
    return spark.createDataFrame(session, rows, columns)


def clear(a, v):
    """Whether the value is not so close to an edge that the rounding of Spark's arithmetic decides."""
    if a["k"] == "groupbin" and abs(v) > 1e6:
        return False
    lo, width = (a["lo"], (a["hi"] - a["lo"]) / a["n"]) if a["k"] == "bin" else (a["or"], a["bw"])
    x = (fractions.Fraction(v) - fractions.Fraction(lo)) / fractions.Fraction(width)
    if not abs(x) < 1e9:
        return True
    return v * 4096.0 == int(v * 4096.0) if x == round(x) else abs(x - round(x)) > 1e-9


def usable(specs, nanweights):
    """Events for which Spark's arithmetic is Python's."""
    def out(row):
        for s in specs:
            r = row
            for a in s.axes:
                v = pyeval.value(a["expr"], r, s.defs)
                if isinstance(v, float) and (v != v or math.isinf(v)):
                    if not model.bareref(a["expr"]) or a["expr"] in s.defs or a["k"] in ("groupby", "cut"):
                        return False
                    if math.isinf(v) and a["k"] == "groupbin":
                        return False
                elif a["k"] in ("bin", "groupbin") and not clear(a, v):
                    return False
            if s.weight == "w" and r["w"] != r["w"] and "w" not in s.profiles and (s.filter is None or "w" not in pyeval.names(s.filter, s.defs)):
                nanweights.append(r)
                r = dict(r, w=0.0)
            texts = [p for p in s.profiles] + [w for w in (s.weight, s.filter) if isinstance(w, str)] + [a["expr"] for a in s.axes if a["k"] == "cut"]
            for t in texts:
                for f in pyeval.names(t, s.defs):
                    if isinstance(r[f], float) and not abs(r[f]) < 1e100:
                        return False
        return True
    return out


def gen_frame_data(ctx, rng, specs):
    nanweights = []
    data = gen.gen_data(rng, specs, usable=usable(specs, nanweights), objects=False)
    if rng.random() < 0.01:
        data = data.inflate(rng, rng.choice([129, 300, 1025]))
        ctx.seen("large_frames")
    if any(r in nanweights for r in data.rows):
        ctx.seen("nan_weights")
    # the DataFrame has doubles, longs, booleans and strings
    for r in data.rows:
        for n in r:
            v = r[n]
            if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 10**6:
                r[n] = float(v)
    for r in data.rows:
        for s in specs:
            for a in s.axes:
                v = pyeval.value(a["expr"], r, s.defs)
                if isinstance(v, float) and v != v:
                    ctx.seen("nan_events")
                elif isinstance(v, float) and math.isinf(v):
                    ctx.seen("infinite_events")
                elif a["k"] == "groupbin" and v < 0:
                    ctx.seen("negative_group_values")
    return data


def gen_frame_spec(ctx, rng):
    while True:
        s = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), decimal=False)
        if s.axes and len(set(a["expr"] for a in s.axes)) == len(s.axes) and all(awkward(a) for a in s.axes):
            return s


def awkward(a):
    if a["k"] == "groupbin":
        return a["bw"] in (0.5, 1, 2, 0.25, 4, 0.125, 0.0625)
    if a["k"] == "bin":
        return math.log2((a["hi"] - a["lo"]) / a["n"]) == int(math.log2((a["hi"] - a["lo"]) / a["n"]))
    return True


def describe(ctx, spec):
    for a in spec.axes:
        ctx.seen("on_" + a["k"])
        for f in ("u", "o", "nan", "cl"):
            if f in a and not a[f]:
                ctx.seen("no_" + f)
    if spec.weight is not None and spec.filter is not None:
        ctx.seen("both")
    elif spec.weight is not None:
        ctx.seen("weighted")
    elif spec.filter is not None:
        ctx.seen("filtered")
    if spec.profiles:
        ctx.seen("with_profiles")
    if spec.defs:
        ctx.seen("with_defs")


def hist_case(ctx, rng, session):
    spec = gen_frame_spec(ctx, rng)
    ctx.log("{0}", spec)
    describe(ctx, spec)
    ctx.seen("hists")
    h = ctx.do("construct", spec.make)
    others = []
    entries = []
    steps = rng.choice([1, 1, 2, 3])
    if steps > 1:
        ctx.seen("several_fills")
    how = []
    for _ in range(steps):
        data = gen_frame_data(ctx, rng, [spec])
        r = rng.random()
        if r < 0.12:
            twin = ctx.do("copy", h.copyonfill if rng.random() < 0.7 else h.copy)
            ctx.seen("copyonfill")
            others.append((twin, list(entries)))
            if rng.random() < 0.5:
                h, others[-1] = twin, (h, list(entries))
        if r > 0.8:
            ctx.seen("mixed_with_arrays")
            how.append("arrays")
            gen.fill_hist(ctx, h, data)
            entries += data.entries()
            continue
        if len(data) == 0:
            ctx.seen("empty_frames")
        df = frame(session, data, spec.fields() if rng.random() < 0.5 else None, ["unused"] if rng.random() < 0.2 else [])
        before = c11.fingerprint(h)
        r = rng.random()
        if r < 0.06:
            ctx.must_refuse("fill(DataFrame, x=...)", TypeError, h.fill, df, x=numpy.array([1.0]))
            ctx.seen("keywords_refused")
            ctx.check(c11.fingerprint(h) == before, "a refused fill changed the histogram")
        elif r < 0.12 and any(f in h.fields for f in spec.fields()):
            gone = rng.choice([f for f in spec.fields() if f in h.fields])
            few = frame(session, data, [f for f in spec.fields() if f != gone])
            ctx.must_refuse("fill without the column {0}".format(gone), Exception, h.fill, few)
            ctx.seen("columns_missing")
            ctx.check(c11.fingerprint(h) == before, "a refused fill changed the histogram")
        elif r < 0.18:
            session.fault = session.queries + 1
            ctx.must_refuse("fill whose query fails", spark.Fault, h.fill, df)
            session.fault = None
            ctx.seen("faults_injected")
            ctx.check(c11.fingerprint(h) == before, "a failed fill changed the histogram")
        ctx.log("fill(DataFrame of {0})", data.show())
        ctx.do("fill(DataFrame)", h.fill, df)
        how.append("frame")
        entries += data.entries()
        want = model.fill(spec, entries)
        observe.check(ctx, h, spec, want, "filled from a DataFrame")
    observe.check(ctx, h, spec, model.fill(spec, entries), "filled from DataFrames")
    for x, ents in others:
        observe.check(ctx, x, spec, model.fill(spec, ents), "copy of a histogram that was filled from a DataFrame")
    ctx.signature(str(spec), tuple(how))


def book_case(ctx, rng, session):
    specs = [gen_frame_spec(ctx, rng) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
    ctx.seen("books")
    book = histbook.Book()
    shadow = []
    for k, s in enumerate(specs):
        describe(ctx, s)
        ctx.log("h{0} = {1}", k, s)
        h = ctx.do("construct", s.make)
        name = "h{0}".format(k)
        if rng.random() < 0.3:
            name = "nested/deep/" + name if rng.random() < 0.3 else "nested/" + name
            ctx.seen("nested_books")
        book[name] = h
        if rng.random() < 0.1:
            book["also{0}".format(k)] = h
            ctx.seen("same_hist_twice")
        shadow.append([h, s, []])
    if rng.random() < 0.15:
        # a copy on fill is left alone by further fills
        first = book
        book = ctx.do("copyonfill", book.copyonfill)
        ctx.seen("copyonfill")
        named = dict(book.allitems(onlyhist=True))
        pairs = [(x, named[n]) for n, x in first.allitems(onlyhist=True)]
        kept = [[h, s, []] for h, s, e in shadow]
        shadow = [[next(y for x, y in pairs if x is h), s, e] for h, s, e in shadow]
        if len(set(id(y) for _, y in pairs)) != len(shadow):
            shadow = [[y, next(s for h, s, e in kept if h is x), []] for x, y in pairs]
    else:
        kept = []
    session.delays = rng.random() < 0.6
    for step in range(rng.choice([1, 2, 3])):
        data = gen_frame_data(ctx, rng, specs)
        if rng.random() < 0.2:
            ctx.seen("mixed_with_arrays")
            gen.fill_hist(ctx, book, data, "book")
        else:
            df = frame(session, data)
            if rng.random() < 0.2:
                before = [c11.fingerprint(h) for h, s, e in shadow]
                session.fault = session.queries + rng.randrange(1, len(shadow) + 1)
                ctx.must_refuse("book fill with a failing query", spark.Fault, book.fill, df)
                session.fault = None
                ctx.seen("faults_injected")
                ctx.check(before == [c11.fingerprint(h) for h, s, e in shadow], "a book fill with a failing query filled some of the histograms")
            ctx.log("book.fill(DataFrame of {0})", data.show())
            running = threading.active_count()
            ctx.do("book.fill(DataFrame)", book.fill, df)
            ctx.check(threading.active_count() <= running, "filling the book has left threads running")
            if session.delays:
                ctx.seen("queries_delayed")
        for x in shadow:
            x[2] = x[2] + data.entries()
        for h, s, e in shadow:
            observe.check(ctx, h, s, model.fill(s, e), "in a book filled from a DataFrame")
    for h, s, e in kept:
        observe.check(ctx, h, s, {}, "original of a book copied before it was filled from a DataFrame")
    ctx.signature(tuple(sorted(str(s) for s in specs)))


def expression_case(ctx, rng, session, index):
    """A single expression, by event."""
    n = 24
    arrays, rows = c04.data(rng, n)
    must = True
    if index // 4 < len(MUST):
        text, boolean = MUST[index // 4], False
        ctx.seen("must_functions")
    elif index // 4 < len(MUST) + len(MUSTBOOL):
        text, boolean = MUSTBOOL[index // 4 - len(MUST)], True
        ctx.seen("must_booleans")
    elif rng.random() < 0.3:
        boolean = rng.random() < 0.4
        text, must = rng.choice(MUSTBOOL if boolean else MUST), True
    else:
        boolean, must = rng.random() < 0.4, False
        text = exprs.boolean(rng, rng.choice([0, 1, 2]), exprs.FIELDS) if boolean else exprs.num(rng, rng.choice([1, 2, 3]), exprs.FIELDS)
        ctx.seen("random_expressions")
    try:
        wants = c04.expected(ctx, text, rows)
    except TypeError:
        return
    if not pyeval.names(text) or all(w is None for w in wants):
        return
    ctx.signature(text)
    for r, k in zip(rows, range(n)):
        r["k"] = k
    data = gen.Data(dict(arrays, k=numpy.arange(n)), rows)
    axis = histbook.cut(text) if boolean else histbook.profile(text)
    try:
        h = histbook.Hist(histbook.groupby("k"), axis)
    except Exception:
        return              # not an expression histbook has
    used = [k for k, w in enumerate(wants) if w is not None]
    data = data.take(used)
    df = frame(session, data)
    ctx.log("{0} of {1}", text, data.show())
    if must:
        ctx.do("fill(DataFrame)", h.fill, df)
    else:
        try:
            h.fill(df)
        except (NotImplementedError, spark.AnalysisException, RuntimeError, AttributeError, TypeError) as err:
            ctx.log("refused: {0}", err)
            ctx.seen("unsupported_refused")
            ctx.check(len(h.groupkeys("k")) == 0 if isinstance(err, NotImplementedError) else True, "a refused fill has filled the histogram")
            return
    if boolean:
        tab = ctx.do("table", h.table, error=False, recarray=False)
    else:
        tab = ctx.do("table", h.table, h.axis[1], count=False, error=False, recarray=False)
    ctx.check(sorted(tab) == used, "{0}: groups {1} from events {2}", text, sorted(tab), used)
    for k in used:
        if boolean:
            v = tab[k].reshape(-1).tolist()
            ctx.check(sum(v) == 1, "cut({0}) counts event {1} {2} times", text, rows[k], sum(v))
            c04.close(ctx, text, "cut of a DataFrame", rows[k], v[1] == 1, wants[k])
        else:
            c04.close(ctx, text, "profile of a DataFrame", rows[k], float(tab[k].reshape(-1)[0]), wants[k])


def run_case(ctx, rng, index):
    session = spark.Session(rng)
    if index % 4 == 0:
        expression_case(ctx, rng, session, index)
    elif index % 4 == 1:
        book_case(ctx, rng, session)
    else:
        hist_case(ctx, rng, session)
    ctx.seen("queries_collected", session.queries)
    if session.overlap > 1:
        ctx.seen("queries_overlapping")
