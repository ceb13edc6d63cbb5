"""C08: select equals filtering the data before filling, or refuses."""
import math
import re

import histbook

from hbv import gen, model, observe, pyeval
from hbv.core import Refused, Violation

QUICK, THOROUGH = 13000, 150000
RULE = "a case = a filled histogram and chains of selections compared with the filtered events in the original bins, then filled further; distinct = (axis kinds and flags, selection)"
REQUIRED = ["selections_granted", "selections_refused", "expected_and_granted", "refilled_after_select", "chained", "conjunctions", "disjunctions_on_groups", "cut_selections", "nan_selections", "inf_selections", "on_unfilled", "on_bin", "on_split", "on_intbin", "on_groupby", "on_groupbin", "weighted", "with_profiles", "folded_thresholds", "ranges", "tolerances", "tolerances_refused", "added_to_fresh"]
ASSUMPTIONS = ["order comparisons under 'not' with NaN values and infinite thresholds on intbin with infinite values are not claimed"]

REFUSAL = (ValueError, TypeError, IndexError)
EXPRS = ["x", "y", "z", "x", "a", "a + b", "2*a", "a*b"]


def sat(conds, row, defs):
    """Whether a row satisfies a nested condition: ("cmp", expr, op, value) | ("and"/"or", ...) | ("is", expr, bool)."""
    k = conds[0]
    if k in ("and", "range"):
        return all(sat(x, row, defs) for x in conds[1:])
    if k == "or":
        return any(sat(x, row, defs) for x in conds[1:])
    if k == "is":
        return bool(pyeval.value(conds[1], row, defs)) == conds[2]
    _, expr, op, value = conds[:4]
    v = pyeval.value(expr, row, defs)
    if isinstance(value, float) and math.isnan(value):
        return (v != v) == (op == "==")
    return {"<": lambda: v < value, "<=": lambda: v <= value, ">": lambda: v > value, ">=": lambda: v >= value, "==": lambda: v == value, "!=": lambda: v != value,
            "in": lambda: v in value, "not in": lambda: v not in value}[op]()


def lit(v):
    if isinstance(v, float):
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
    if isinstance(v, (list, tuple)):
        return "{" + ", ".join(lit(x) for x in v) + "}"
    return repr(v)


def spell(rng, v, exactly):
    """A constant expression for the threshold v."""
    if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v) or rng.random() < 0.7:
        return lit(v)
    ways = []
    if isinstance(v, int) or exact(v):
        ways += ["{0!r} + 1".format(v - 1), "{0!r} - 2".format(v + 2), "3 - {0!r}".format(3 - v), "2*{0!r}".format(v / 2.0), "{0!r}/4".format(v * 4), "-({0!r})".format(-v), "-2*({0!r})".format(v / -2.0), "(1 + 1)*{0!r}".format(v / 2.0)]
    if not exactly and abs(v) < 1000:
        pi, e = math.pi, math.e
        ways += ["pi*{0!r}".format(v / pi), "{0!r}*pi".format(v / pi), "{0!r}/pi".format(v * pi), "pi + {0!r}".format(v - pi), "{0!r} - E".format(v + e), "{0!r} + e".format(v - e), "2*pi + {0!r}".format(v - 2 * pi), "-pi*{0!r}".format(-v / pi), "{0!r}/(2*Pi)".format(v * 2 * pi)]
        if v:
            ways += ["{0!r}/({1!r}/pi)".format(1.0, pi / v), "pi/{0!r}".format(pi / v)]
    return rng.choice(ways) if ways else lit(v)


SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def text_of(rng, c):
    if c[0] == "range":
        if rng.random() < 0.7:
            return "{0} {1} {2} {3} {4}".format(spell(rng, c[1][3], False), SWAP[c[1][2]], c[1][1], c[2][2], spell(rng, c[2][3], False))
        c = ("and",) + c[1:]
    if c[0] in ("and", "or"):
        return " {0} ".format(c[0]).join("({0})".format(text_of(rng, x)) if x[0] in ("and", "or") else text_of(rng, x) for x in c[1:])
    if c[0] == "is":
        e = c[1]
        if model.bareref(e):
            return rng.choice([e, e + " == True", e + " != False"]) if c[2] else rng.choice(["not " + e, e + " == False", e + " != True"])
        return "({0})".format(e) if c[2] else "not ({0})".format(e)
    e, op, v, how = c[1:]
    t = spell(rng, v, how is None) if how is None or how == 0 else repr(v + how)
    if op in SWAP and rng.random() < 0.25:
        return "{0} {1} {2}".format(t, SWAP[op], e)
    return "{0} {1} {2}".format(e, op, t)


def exact(v):
    return v == float(v) and float(v) == round(float(v) * 1024) / 1024


def simple(rng, a, ctx):
    """(condition, must be granted) on one axis."""
    c, must = plain(rng, a, ctx)
    return (c + (None if a["k"] == "groupby" else 0,) if c[0] == "cmp" else c), must


def plain(rng, a, ctx):
    k, e = a["k"], a["expr"]
    if k == "cut":
        ctx.seen("cut_selections")
        side = rng.random() < 0.5
        return ("is", e, side), (model.bareref(e) and e not in gen.DEFS) or (side and re.match(r"^\w+ (<|<=|>|>=) -?[0-9.]+$", e) is not None)
    if k == "groupby":
        if e in ("s", "t"):
            vals = gen.STRINGS[:5]
            if rng.random() < 0.4:
                return ("cmp", e, rng.choice(["in", "not in"]), rng.sample(vals, rng.choice([1, 2]))), True
            return ("cmp", e, rng.choice(["==", "!=", "<", ">=", ">", "<="]), rng.choice(vals)), True
        elif e == "p":
            return ("is", e, rng.random() < 0.5), False
        if rng.random() < 0.3:
            return ("cmp", e, rng.choice(["in", "not in"]), rng.sample(range(-2, 5), rng.choice([1, 2, 3]))), True
        return ("cmp", e, rng.choice(["==", "!=", "<", ">=", ">", "<="]), rng.choice([-1, 0, 1, 2, 3, 1.5])), True
    op = rng.choice(["<", "<=", ">", ">=", ">", ">=", "<", "<=", "==", "!="])
    if k == "intbin":
        v = rng.choice(list(range(a["min"] - 1, a["max"] + 2)) + [a["min"] + 0.5])
        left = {"<": v - a["min"], "<=": v - a["min"] + 1, ">": a["max"] - v, ">=": a["max"] - v + 1}.get(op, 0)
        must = op in ("<", "<=", ">", ">=") and a["min"] <= v <= a["max"] and v == int(v) and left > 0
        return ("cmp", e, op, v), must
    if rng.random() < 0.5:
        op = rng.choice(["<", ">="] if a["cl"] else [">", "<="])
    r = rng.random()
    onlynan = k == "split" and len(a["edges"]) == 1 and not a["u"] and not a["o"]
    if r < 0.12:
        ctx.seen("nan_selections")
        op = rng.choice(["==", "!="])
        return ("cmp", e, op, float("nan")), not onlynan if op == "!=" else a["nan"]
    if r < 0.2:
        ctx.seen("inf_selections")
        v = rng.choice([float("inf"), -float("inf")])
        if k == "groupbin":
            op = rng.choice([op, "!=", ">" if v < 0 else "<"])
            return ("cmp", e, op, v), (op, v) in ((">=", -float("inf")), (">", -float("inf")), ("!=", v), ("<=", float("inf")), ("<", float("inf")))
        return ("cmp", e, op, v), not onlynan and (op, v) in ((">=", -float("inf")), ("<=", float("inf")))
    if k == "groupbin":
        v = a["or"] + rng.choice([-2, -1, 0, 1, 2, 3]) * a["bw"]
        right = op in (("<", ">=") if a["cl"] else (">", "<="))
        if r < 0.85:
            return ("cmp", e, op, v), right and exact(v) and exact(a["bw"])
        return ("cmp", e, op, v + a["bw"] / 4), False
    edges = model.edges_of(a)
    i = rng.randrange(len(edges))
    v = edges[i]
    right = op in (("<", ">=") if a["cl"] else (">", "<="))
    if r < 0.85:
        left = i + a["u"] if op in ("<", "<=") else len(edges) - 1 - i + a["o"]
        return ("cmp", e, op, v), right and exact(v) and left > 0
    return ("cmp", e, op, v + rng.choice([0.125, -0.125, 3, -3])), False


def between(rng, a, ctx):
    """A range of one axis, from edge to edge."""
    e = a["expr"]
    if a["k"] == "intbin":
        lo, hi = sorted(rng.choice(range(a["min"], a["max"] + 1)) for _ in range(2))
        low, high = ("cmp", e, ">=", lo, 0), ("cmp", e, "<=", hi, 0)
        if rng.random() < 0.3 and lo > a["min"]:
            low = ("cmp", e, ">", lo - 1, 0)
        if rng.random() < 0.3 and hi < a["max"]:
            high = ("cmp", e, "<", hi + 1, 0)
    else:
        edges = model.edges_of(a) if a["k"] != "groupbin" else [a["or"] + i * a["bw"] for i in range(-2, 4)]
        if len(edges) < 2 or not all(exact(x) for x in edges):
            return None
        lo, hi = sorted(rng.sample(edges, 2))
        low, high = [("cmp", e, op, v, 0) for op, v in zip((">=", "<") if a["cl"] else (">", "<="), (lo, hi))]
    ctx.seen("ranges")
    return ("range", low, high), True


def near(rng, a, ctx):
    """A threshold near an edge, with a tolerance."""
    if a["k"] in ("groupby", "cut", "intbin"):
        return None
    edges = model.edges_of(a) if a["k"] != "groupbin" else [a["or"] + i * a["bw"] for i in range(-2, 4)]
    if not all(exact(x) for x in edges):
        return None
    i = rng.randrange(len(edges))
    op = rng.choice(("<", ">=") if a["cl"] else (">", "<="))
    left = 1 if a["k"] == "groupbin" else i + a["u"] if op in ("<", "<=") else len(edges) - 1 - i + a["o"]
    tol = rng.choice([2.0**-10, 2.0**-12, 1e-5])
    inside = rng.random() < 0.6
    width = min([y - x for x, y in zip(edges[:-1], edges[1:])] or [1])
    if left == 0 or width < 8 * tol:
        return None
    off = tol * rng.choice([-0.75, 0.75, 0.5]) if inside else tol * rng.choice([-1.5, 1.5, 2])
    return ("cmp", a["expr"], op, edges[i], off, tol, inside)


def condition(rng, axes, ctx):
    r = rng.random()
    if axes and rng.random() < 0.12:
        ranged = [a for a in axes if a["k"] not in ("groupby", "cut")]
        out = between(rng, rng.choice(ranged), ctx) if ranged else None
        if out is not None:
            return out
    if r < 0.62 or not axes:
        return simple(rng, rng.choice(axes), ctx)
    if r < 0.82:
        ctx.seen("conjunctions")
        chosen = [rng.choice(axes) for _ in range(rng.choice([2, 2, 3]))]
        parts = [simple(rng, a, ctx) for a in chosen]
        apart = len(set(a["expr"] for a in chosen)) == len(chosen) and not any(x[0][0] == "cmp" and isinstance(x[0][3], float) and math.isnan(x[0][3]) for x in parts)
        return ("and",) + tuple(p[0] for p in parts), apart and all(p[1] for p in parts)
    group = [a for a in axes if a["k"] in ("groupby", "groupbin")]
    if group and rng.random() < 0.8:
        a = rng.choice(group)
        ctx.seen("disjunctions_on_groups")
        terms, must = [], True
        for _ in range(rng.choice([2, 2, 3])):
            t = [simple(rng, a, ctx) for _ in range(rng.choice([1, 1, 2]))]
            must = must and all(x[1] for x in t)
            t = [x[0] for x in t]
            terms.append(("and",) + tuple(t) if len(t) > 1 else t[0])
        return ("or",) + tuple(terms), must
    parts = [simple(rng, rng.choice(axes), ctx) for _ in range(2)]
    return (rng.choice(["or", "and"]),) + tuple(p[0] for p in parts), False


def usesinf(c):
    return any(usesinf(x) for x in c[1:]) if c[0] in ("and", "or", "range") else c[0] == "cmp" and isinstance(c[3], float) and math.isinf(c[3])


def clear(c, row, defs):
    """Whether the selection is decided for the row in spite of rounding."""
    if c[0] in ("and", "or", "range"):
        return all(clear(x, row, defs) for x in c[1:])
    if c[0] == "is":
        return all(row[f] == row[f] for f in pyeval.names(c[1], defs))
    v = pyeval.value(c[1], row, defs)
    if isinstance(v, float) and isinstance(c[3], float) and math.isfinite(v) and math.isfinite(c[3]) and v != c[3] and abs(v - c[3]) < 1e-9 * max(1, abs(v)):
        return False
    if (not model.bareref(c[1]) or c[1] in defs) and not pyeval.exactarith(c[1], defs):
        return not (isinstance(v, float) and isinstance(c[3], float) and abs(v - c[3]) < 1e-9)
    return True


def axis_exprs(h):
    return [(type(x).__name__, str(x.expr)) for x in h.axis if not isinstance(x, histbook.profile)]


def run_case(ctx, rng, index):
    axes = gen.gen_axes(rng, rng.choice([1, 1, 1, 2, 2, 3]), decimal=rng.random() < 0.3, maxgroup=2)
    spec = gen.gen_spec(rng, axes=axes, weight=0.3, filter=0.15, profiles=0.25)
    ctx.log(str(spec))
    unfilled = rng.random() < 0.06
    h = ctx.do("construct", spec.make)
    conds, musts = [], []
    plan = rng.choice([1, 1, 2, 3])
    allc = []
    for _ in range(plan):
        c, m = condition(rng, spec.ordered, ctx)
        allc.append((c, m))

    tolerant = near(rng, rng.choice(spec.ordered), ctx) if spec.ordered and rng.random() < 0.15 else None

    def usable(r):
        return all(clear(c, r, spec.defs) for c, _ in allc) and (tolerant is None or clear(tolerant, r, spec.defs))
    data = gen.gen_data(rng, spec, n=rng.choice([5, 20, 40, 60]), usable=usable, large=0.01)
    if unfilled:
        ctx.seen("on_unfilled")
        data = data.take([])
    else:
        gen.fill_hist(ctx, h, data)
    base = h
    want0 = model.fill(spec, data.entries())
    before = observe.check(ctx, h, spec, want0, "before selecting")
    names = axis_exprs(h)
    chain = []
    rows = data.rows
    if tolerant is not None:
        t, tol = text_of(rng, tolerant[:5]), tolerant[5]
        if tolerant[6]:
            ctx.seen("tolerances")
            sel = ctx.do("select({0!r}, tolerance={1!r})".format(t, tol), h.select, t, tolerance=tol)
            observe.check(ctx, sel, spec_now(spec, sel), want_now(spec, sel, [r for r in rows if sat(tolerant, r, spec.defs)]), "select {0} with tolerance {1}".format(t, tol))
        else:
            ctx.seen("tolerances_refused")
            ctx.must_refuse("select({0!r}, tolerance={1!r})".format(t, tol), REFUSAL, h.select, t, tol)
    for depth, (c, must) in enumerate(allc):
        t = text_of(rng, c)
        if any(x in t for x in ("pi", "Pi", "E", "/4", "(1 + 1)", "-2*(")) and c[0] == "cmp" and must:
            ctx.seen("folded_thresholds")
        # the remaining conditions may concern axes that were selected away
        present = axis_exprs(h)
        axis_of = [a for a in spec.ordered]
        must = must and depth == 0
        if must:
            ctx.log("select({0!r}) must be granted", t)
            h2 = ctx.do("select({0!r})".format(t), h.select, t)
            ctx.seen("expected_and_granted")
        else:
            try:
                h2 = ctx.may("select({0!r})".format(t), REFUSAL, h.select, t)
            except Refused:
                ctx.seen("selections_refused")
                observe.check(ctx, h, spec_now(spec, h), want_now(spec, h, rows), "after a refused selection")
                continue
        ctx.seen("selections_granted")
        if depth > 0 and chain:
            ctx.seen("chained")
        chain.append(t)
        rows = [r for r in rows if sat(c, r, spec.defs)]
        h = h2
        want = want_now(spec, h, rows)
        observe.check(ctx, h, spec_now(spec, h), want, "select {0}".format(chain))
        ctx.signature(tuple(tuple(sorted((n, str(v)) for n, v in a.items() if n in ("k", "u", "o", "nan", "cl"))) for a in spec.ordered), t)
        for a in spec.ordered:
            if a["expr"] in t:
                ctx.seen("on_" + a["k"])
        if spec.weighted:
            ctx.seen("weighted")
        if spec.profiles:
            ctx.seen("with_profiles")
    # the original is unchanged
    got = observe.content(base)
    ctx.check(got == before, "select changed the histogram it was applied to: {0} became {1}", before, got)
    if chain and len(axis_exprs(h)) > 0:
        # the selected histogram remains usable with its own axes
        ctx.seen("refilled_after_select")
        now = model.Spec([model.spec_of(x) for x in h.axis if not isinstance(x, histbook.profile)], spec.profiles, spec.weight, spec.filter, spec.defs)
        more = gen.gen_data(rng, [now, spec], n=rng.choice([5, 20]))
        want = want_now(spec, h, rows)
        gen.fill_hist(ctx, h, more, "selected")
        want = model.addbins(want, model.fill(now, more.entries()))
        observe.check(ctx, h, now, want, "filled after select {0}".format(chain))
        if rng.random() < 0.3:
            gen.adds(ctx, rng, h, now, want, "selected")
        got = observe.content(base)
        ctx.check(got == before, "filling the selected histogram changed the original")


def kept(spec, h):
    """Positions of the original axes that are still in h (selected cuts are removed)."""
    have = axis_exprs(h)
    out = []
    j = 0
    for i, a in enumerate(spec.ordered):
        if j < len(have) and have[j][0] == a["k"] and (a["k"] != "cut" or have[j][1] == EXPRTEXT(a)):
            out.append(i)
            j += 1
        elif a["k"] != "cut":
            raise Violation("after selection the axes are {0}, from {1}".format(have, [model.show_axis(x) for x in spec.ordered]))
    if j != len(have):
        raise Violation("after selection the axes are {0}, from {1}".format(have, [model.show_axis(x) for x in spec.ordered]))
    return out


def EXPRTEXT(a):
    return str(model.make_axis(a).expr)


def spec_now(spec, h):
    return spec.replace(axes=[spec.ordered[i] for i in kept(spec, h)])


def want_now(spec, h, rows):
    """Contents in the original bins, with the keys of the removed axes left out."""
    keep = kept(spec, h)
    out = {}
    for k, b in model.fill(spec, [(r, 1.0) for r in rows]).items():
        out = model.addbins(out, {tuple(k[i] for i in keep): b})
    return out
