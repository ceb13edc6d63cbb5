"""C04: expressions are computed with the meaning they have in Python."""
import numpy
import histbook

from hbv import exprs, gen, model
from hbv.core import Refused, Violation

QUICK, THOROUGH = 30000, 600000
RULE = "a case = one to three random expressions evaluated by the code under test on 12-24 events each (as profile, bin, cut, filter, weight, definition) against Python's eval; distinct = expressions"
REQUIRED = ["values_compared", "booleans_compared", "as_filter", "as_weight", "as_bin", "with_defs", "parsed_defs", "axes_of_another", "zoo_refused", "not_supported", "zoo_computed", "fields_named_like_constants", "unused_unclear_events", "qualified_functions", "special_functions", "function_table"]
ASSUMPTIONS = ["events are used only where Python's value is insensitive to rounding and inside the functions' domains"]


def data(rng, n):
    arrays = dict((f, gen.column(rng, f, n, None, {"objects": False, "wide": False})) for f in ["a", "b", "c", "i", "j", "p", "q", "s", "t"])
    return arrays, gen.rows_of(arrays)


def close(ctx, text, how, row, got, want):
    if isinstance(want, bool):
        ctx.seen("booleans_compared")
        if bool(got) != want:
            raise Violation("{0} as {1} is {2!r} for {3}, in Python {4!r}".format(text, how, got, row, want))
    else:
        ctx.seen("values_compared")
        if not abs(got - want.v) <= 1e3 * want.e + 1e-6 * max(1e-3, abs(want.v)):
            raise Violation("{0} as {1} is {2!r} for {3}, in Python {4!r}".format(text, how, got, row, want.v))


def expected(ctx, text, rows, defs=None):
    out = []
    for r in rows:
        try:
            x = exprs.evaluate(text, r, defs)
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                x = exprs.V.of(x)
            if isinstance(x, complex) or isinstance(x, exprs.V) and not abs(x.v) < 1e12:
                raise exprs.Unclear("constant out of range")
            out.append(x)
        except exprs.Unclear:
            ctx.seen("unused_unclear_events")
            out.append(None)
    return out


REFUSALS = ("division by zero", "complex", "Integers to negative integer powers", "too large", "out of range", "math domain error", "negative power")


def run(ctx, text, fcn, *args, **opts):
    """Constants outside of an operation's domain, and int**(-int) in Numpy, may be refused; nothing else may."""
    ctx.log(text)
    try:
        return fcn(*args, **opts)
    except Exception as err:
        if any(x in str(err) for x in REFUSALS):
            ctx.seen("refused_out_of_domain")
            raise Refused(err)
        return ctx.do(text, fcn, *args, **opts)


def construct(ctx, rng, *axes, **opts):
    """A histogram of the axes, which sometimes come from another histogram with other definitions."""
    if opts.get("defs") and rng.random() < 0.15:
        other = run(ctx, "construct another", histbook.Hist, *axes, defs=dict((n, "b + 0.5") for n in opts["defs"]))
        ctx.seen("axes_of_another")
        axes = list(other.axis)
    return run(ctx, "construct", histbook.Hist, *axes, **opts)


def run_case(ctx, rng, index):
    arrays, rows = data(rng, rng.choice([12, 24]))
    n = len(rows)
    arrays["k"] = numpy.arange(n)
    zoo = index < 3 * (len(exprs.ZOO_NUM) + len(exprs.ZOO_BOOL)) and index % 3 == 0
    systematic = exprs.SPELLINGS[index // 3] if index % 3 == 1 and index // 3 < len(exprs.SPELLINGS) else None
    if zoo:
        return zoo_case(ctx, rng, (exprs.ZOO_NUM + exprs.ZOO_BOOL)[index // 3], arrays, rows)
    if systematic is None and index % 25 == 2:
        return unsupported_case(ctx, rng)
    defs = {}
    if rng.random() < 0.25:
        defs = {"d": exprs.num(rng, 2), "g": exprs.num(rng, 1)}
        defs = dict((n, x if exprs.pyeval.names(x) else "a") for n, x in defs.items())
        if rng.random() < 0.3:
            defs["f"] = rng.choice([2, 0.5, 3])
        ctx.seen("with_defs")
    names = exprs.FIELDS + sorted(defs)
    if rng.random() < 0.12:
        ctx.seen("fields_named_like_constants")     # given in the data, they are fields
        extra = rng.sample(["e", "E", "pi", "nan", "inf"], 2)
        for f in extra:
            arrays[f] = gen.column(rng, "a", n, None, {"objects": False, "wide": False})
        rows = [dict(r, **dict((f, float(arrays[f][k])) for f in extra)) for k, r in enumerate(rows)]
        names = names[:2] + extra + extra
    kind = rng.choice(["profile", "profile", "profile", "cut", "cut", "filter", "weight", "bin"])
    opts = {"defs": dict(defs)} if defs else {}
    if defs and rng.random() < 0.3:
        parsed = rng.choice(sorted(n for n in defs if isinstance(defs[n], str)))
        opts["defs"][parsed] = run(ctx, "parse", histbook.expr.Expr.parse, defs[parsed])
        ctx.seen("parsed_defs")
    if systematic is not None:
        kind, texts, defs, opts = "cut" if systematic[1] else "profile", [systematic[0]], {}, {}
        ctx.seen("function_table")
    elif kind == "profile":
        texts = [exprs.num(rng, rng.choice([1, 2, 3, 4]), names) for _ in range(rng.choice([1, 1, 2, 3]))]
    elif kind in ("cut", "filter"):
        texts = [exprs.boolean(rng, rng.choice([0, 1, 2, 3]), names)]
        if kind == "filter" and texts[0].strip("()") in ("p", "q"):
            texts = ["p and q"]
    else:
        texts = [exprs.num(rng, rng.choice([1, 2, 3]), names)]
    try:
        wants = [expected(ctx, t, rows, defs) for t in texts]
    except TypeError:
        return              # not an expression Python can evaluate
    if systematic is not None:
        ctx.seen("function_table_events", sum(w is not None for w in wants[0]))
    texts, wants = zip(*[(t, w) for t, w in zip(texts, wants) if sum(x is not None for x in w) > 0]) if any(any(x is not None for x in w) for w in wants) else ((), ())
    if not texts:
        return
    for t in texts:
        ctx.signature(t)
        if "math." in t or "numpy." in t:
            ctx.seen("qualified_functions")
        if "gamma" in t or "erf" in t or "factorial" in t:
            ctx.seen("special_functions")
    if not set().union(*[exprs.pyeval.names(t, dict((k, v) for k, v in defs.items() if isinstance(v, str))) for t in texts]) - set(defs):
        return              # no field at all
    before = dict((f, v.copy()) for f, v in arrays.items())
    ctx.log("{0} {1} defs={2}", kind, texts, defs)
    try:
        if kind == "profile":
            h = construct(ctx, rng, histbook.groupby("k"), *[histbook.profile(t) for t in texts], **opts)
            run(ctx, "fill", h.fill, arrays)
            ax = [x for x in h.axis if isinstance(x, histbook.profile)]
            tab = ctx.do("table", h.table, *ax, count=False, error=False, recarray=False)
            for r in range(n):
                for i, t in enumerate(texts):
                    if wants[i][r] is not None:
                        close(ctx, t, "profile", rows[r], float(tab[r][i]), wants[i][r])
        elif kind == "cut":
            h = construct(ctx, rng, histbook.groupby("k"), histbook.cut(texts[0]), **opts)
            run(ctx, "fill", h.fill, arrays)
            tab = ctx.do("table", h.table, error=False, recarray=False)
            for r in range(n):
                if wants[0][r] is not None:
                    v = tab[r].reshape(-1).tolist()
                    ctx.check(sum(v) == 1, "cut({0}) counts event {1} {2} times", texts[0], rows[r], sum(v))
                    close(ctx, texts[0], "cut", rows[r], v[1] == 1, wants[0][r])
        elif kind == "filter":
            ctx.seen("as_filter")
            h = construct(ctx, rng, histbook.groupby("k"), filter=texts[0], **opts)
            run(ctx, "fill", h.fill, arrays)
            tab = ctx.do("table", h.table, error=False, recarray=False)
            for r in range(n):
                if wants[0][r] is not None:
                    close(ctx, texts[0], "filter", rows[r], float(tab[r].reshape(-1)[0]) == 1, wants[0][r])
        elif kind == "weight":
            ctx.seen("as_weight")
            h = construct(ctx, rng, histbook.groupby("k"), weight=texts[0], **opts)
            run(ctx, "fill", h.fill, arrays)
            tab = ctx.do("table", h.table, error=False, recarray=False)
            for r in range(n):
                if wants[0][r] is not None:
                    close(ctx, texts[0], "weight", rows[r], float(tab[r].reshape(-1)[0]), wants[0][r])
        else:
            ctx.seen("as_bin")
            h = construct(ctx, rng, histbook.groupby("k"), histbook.split(texts[0], (-3.1, -0.9, 0.05, 0.85, 2.15)), **opts)
            run(ctx, "fill", h.fill, arrays)
            tab = ctx.do("table", h.table, error=False, recarray=False)
            for r in range(n):
                w = wants[0][r]
                if w is not None and all(abs(w.v - x) > 1e3 * w.e + 1e-6 for x in (-3.1, -0.9, 0.05, 0.85, 2.15)):
                    pos = sum(w.v >= x for x in (-3.1, -0.9, 0.05, 0.85, 2.15))
                    v = tab[r].reshape(-1).tolist()
                    ctx.seen("values_compared")
                    ctx.check(v[pos] == 1 and sum(v) == 1, "split({0}) puts event {1} into {2}; the value in Python is {3!r}", texts[0], rows[r], v, w.v)
    finally:
        for f, v in before.items():
            ctx.check(numpy.array_equal(v, arrays[f]), "evaluating {0} changed the input {1}", texts, f)


UNSUPPORTED = ["foo({0})", "foo({0}, 1)", "np.sin({0})", "a.b({0})", "a.b", "({0}).real", "a[0]", "a[1:2]", "a[{0}]", "[{0}, 1]", "({0}, 2)", "{{1: {0}}}", "{0} if {2} else 1", "({0}) << 2", "({0}) >> 1", "({0}) @ b", "lambda a: {0}",
               "sin(x=1)", "sin({0}, x={1})", "({0} > 1) + {1}", "-({0} > 1)", "sin({0} > 1)", "max({0} > 1, {1})", "1 < ({0} > 2)", "({2}) + 1", "({2})*({0})", "({0}) in [1, 2]", "({0}) in (1, 2)", "({0}) in b", "({0}) in {{b}}",
               "({0}) is 1", "a is None", "a is not None", "...", "b'x'", "f'{{a}}'", "[a for a in b]", "(lambda: 1)({0})", "sin({0})({1})", "foo()({0})", "a.b.c({0}, 'x')", "mean({0})", "a == b'x'"]


def unsupported_case(ctx, rng):
    """Outside of the language: the error says so."""
    t = rng.choice(UNSUPPORTED).format(rng.choice(["a", "a + 1", "2*b", "sin(a)", "a*b - 3"]), rng.choice(["b", "c", "c - 0.5", "2"]), rng.choice(["a > b", "p and q", "a > 1.5 or q", "not (a < 0)"]))
    where = rng.choice(["axis", "profile", "cut", "weight", "filter", "defs"])
    ctx.signature("unsupported", t, where)
    ctx.log("unsupported {0} as {1}", t, where)
    if where == "axis":
        make = lambda: histbook.Hist(histbook.bin(t, 2, 0, 1))
    elif where == "profile":
        make = lambda: histbook.Hist(histbook.bin("k", 2, 0, 1), histbook.profile(t))
    elif where == "cut":
        make = lambda: histbook.Hist(histbook.cut(t))
    elif where == "defs":
        make = lambda: histbook.Hist(histbook.bin("k + d", 2, 0, 1), defs={"d": t})
    else:
        make = lambda: histbook.Hist(histbook.bin("k", 2, 0, 1), **{where: t})
    try:
        make()
    except (histbook.expr.ExpressionError, NotImplementedError, SyntaxError) as err:
        ctx.seen("not_supported")
        ctx.log("refused: {0}", err)
    except Exception as err:
        ctx.fail("{0} as {1} raises {2}, not an ExpressionError: {3}".format(t, where, type(err).__name__, err))


def zoo_case(ctx, rng, text, arrays, rows):
    """Syntax that may be refused with any error, but not computed as something else."""
    boolean = text in exprs.ZOO_BOOL
    try:
        wants = []
        for r in rows:
            try:
                w = exprs.evaluate(text, r)
                if isinstance(w, (int, float)) and not isinstance(w, bool):
                    w = exprs.V.of(w)
                wants.append(w)
            except exprs.Unclear:
                wants.append(None)
    except Exception:
        wants = [None] * len(rows)
    before = dict((f, v.copy()) for f, v in arrays.items())
    ctx.signature(text)
    ctx.log("zoo {0}", text)
    h = None
    try:
        if boolean:
            h = histbook.Hist(histbook.groupby("k"), histbook.cut(text))
            h.fill(arrays)
            tab = h.table(error=False, recarray=False)
        else:
            h = histbook.Hist(histbook.groupby("k"), histbook.profile(text))
            h.fill(arrays)
            tab = h.table(h.axis[1], count=False, error=False, recarray=False)
    except Exception as err:
        ctx.seen("zoo_refused")
        ctx.log("refused: {0}", err)
        tab = None
    for f, v in before.items():
        ctx.check(numpy.array_equal(v, arrays[f]), "evaluating {0} changed the input {1}", text, f)
    if tab is None:
        return
    ctx.seen("zoo_computed")
    for r, w in enumerate(wants):
        if w is None:
            continue
        if boolean:
            if isinstance(w, bool):
                close(ctx, text, "cut", rows[r], float(tab[r].reshape(-1)[1]) == 1, w)
        elif isinstance(w, exprs.V):
            close(ctx, text, "profile", rows[r], float(tab[r][0]), w)
