"""C05: axes are found by equivalent expressions, and never by expressions of another meaning."""
import ast

import histbook

from hbv import exprs, gen, rewrite
from hbv.core import Violation
from hbv.checks.c04 import REFUSALS

QUICK, THOROUGH = 15750, 125000
RULE = "a case = an axis expression with equivalent texts (which must find it) and changed or unrelated texts (which, when accepted, must have the same value on 60 events); distinct = (axis expression, looked up expression)"
REQUIRED = ["equivalent_found", "different_refused", "different_accepted_and_equal", "by_project", "by_class", "by_index", "by_profile", "boolean_axes", "small_pairs"]

SMALLNUM = ["a", "b", "-a", "a + b", "a - b", "b - a", "a*b", "a/b", "b/a", "a**2", "a*a", "2*a", "a + a", "a*2", "a/2", "0.5*a", "a**0.5", "sqrt(a)", "a + 1", "1 + a", "a - 1", "1 - a", "a*b*2", "2*(a + b)", "2*a + 2*b", "2*a + b", "a + 2*b",
            "(a + b)/2", "a/2 + b/2", "a**3", "a*a*a", "a**-1", "1/a", "1/(1/a)", "a//b", "a % b", "b % a", "abs(a)", "abs(-a)", "-(a + b)", "-a - b", "-a + b", "a - (b - c)", "a - b - c", "a - b + c", "(a - b)*c", "a*c - b*c", "a*b/c", "a/(b/c)", "a/b/c", "a*c/b",
            "(a + b)**2", "a**2 + 2*a*b + b**2", "a**2 + b**2", "a*0", "a - a", "a/a", "max(a, b)", "max(b, a)", "min(a, b)", "hypot(a, b)", "arctan2(a, b)", "arctan2(b, a)", "a**b", "b**a", "i", "j", "i + j", "j + i", "i//2", "i/2", "i % 2", "a + 0", "a*1", "1*a",
            "a + 0.0", "2*a/2", "a + b - b", "sin(a)", "sin(-a)", "-sin(a)", "cos(a)", "cos(-a)", "floor(a)", "ceil(a)", "-floor(-a)", "where(p, a, b)", "where(q, a, b)", "where(p, b, a)", "where(not p, b, a)", "a**2*a", "a**2/a", "a**1", "a**0"]
SMALLBOOL = ["p", "q", "not p", "not q", "not not p", "p and q", "q and p", "p or q", "q or p", "not (p and q)", "not p or not q", "not (p or q)", "not p and not q", "p and not q", "not p and q", "a > b", "b < a", "a >= b", "b <= a", "not (a < b)", "not (a <= b)", "a < b", "a <= b",
             "b > a", "b >= a", "not (a > b)", "a == b", "b == a", "a != b", "not (a == b)", "not (a != b)", "a > 0", "0 < a", "a > 1", "a >= 0", "-a < 0", "a - b > 0", "2*a > 2*b", "a + 1 > b + 1", "a > b and p", "p and a > b", "b < a and p", "(a > b or q) and p", "a > b and p or q and p",
             "p and (q or a > b)", "p and q or p and a > b", "0 < a < b", "0 < a and a < b", "a < b and a > 0", "0 <= a < b", "i in {1, 2}", "i in {2, 1}", "i == 1 or i == 2", "i not in {1, 2}", "not (i in {1, 2})", "i in {1}", "i == 1", "i in {1, 2, 3}", "s == 'one'", "'one' == s", "s in {'one'}",
             "s in {'one', 'two'}", "s == 'one' or s == 'two'", "s != 'one'", "not (s == 'one')", "p or p", "p and p", "p and q and p", "p or p and q", "p and not p", "p or not p", "s == t", "t == s", "s < t", "t > s", "a > b or a < b", "a > b or a == b", "a > b or not (a > b)"]


def constant_relation(text):
    """Whether some comparison has no field (its constants' types depend on the order they are folded in)."""
    for node in ast.walk(ast.parse(text.strip(), mode="eval")):
        if isinstance(node, ast.Compare):
            sides = [node.left] + node.comparators
            if any(not exprs.pyeval.names(rewrite.text_of(x)) and not exprs.pyeval.names(rewrite.text_of(y)) for x, y in zip(sides[:-1], sides[1:])):
                return True
    return False


def events(rng):
    n = 60
    arrays = dict((f, gen.column(rng, f, n, None, {"objects": False, "wide": False})) for f in ["a", "b", "c", "i", "j", "p", "q", "s", "t"])
    return gen.rows_of(arrays)


def compare_meaning(ctx, axistext, text, how, rows, defs):
    used = 0
    for r in rows:
        try:
            x, y = exprs.evaluate(axistext, r, defs), exprs.evaluate(text, r, defs)
        except exprs.Unclear:
            continue
        except TypeError:
            return
        if isinstance(x, bool) != isinstance(y, bool) or isinstance(x, str) != isinstance(y, str):
            raise Violation("{0!r} is accepted ({1}) for the axis {2!r}, but for {3} they are {4!r} and {5!r}".format(text, how, axistext, r, x, y))
        if isinstance(x, (bool, str)):
            same = x == y
        else:
            try:
                x, y = exprs.V.of(x), exprs.V.of(y)
            except exprs.Unclear:
                continue
            same = abs(x.v - y.v) <= 1e3 * (x.e + y.e) + 1e-6 * max(1e-3, abs(x.v))
            x, y = x.v, y.v
        used += 1
        if not same:
            raise Violation("{0!r} is accepted ({1}) for the axis {2!r}, but for {3} they are {4!r} and {5!r}".format(text, how, axistext, r, y, x))
    if used:
        ctx.seen("different_accepted_and_equal")
        ctx.seen("events_compared", used)


def lookups(boolean, profile, text):
    """(name, function of h) for the ways to refer to an axis by expression."""
    out = [("by_index", lambda h: h.axis[text])]
    if profile:
        out.append(("by_profile", lambda h: h.axis.profile(text)))
        out.append(("by_table", lambda h: h.table(text)))
        out.append(("by_drop", lambda h: h.drop(text)))
    elif boolean:
        out.append(("by_class", lambda h: h.axis.cut(text)))
        out.append(("by_project", lambda h: h.project(text)))
        out.append(("by_fraction", lambda h: h.fraction(text)))
    else:
        out.append(("by_class", lambda h: h.axis.bin(text)))
        out.append(("by_class", lambda h: h.axis.bin(text, numbins=4)))
        out.append(("by_project", lambda h: h.project(text)))
        out.append(("by_rebinby", lambda h: h.rebinby(text, 2)))
        out.append(("by_rebin", lambda h: h.rebin(text, [0, 2])))
        out.append(("by_plot", lambda h: h.step(text)))
    return out


def run_case(ctx, rng, index):
    boolean = rng.random() < 0.5
    rows = events(rng)
    defs = {}
    if index % 4 == 0:
        text = rng.choice(SMALLBOOL if boolean else SMALLNUM)
    elif boolean:
        text = exprs.boolean(rng, rng.choice([1, 1, 2, 3]))
    else:
        text = exprs.num(rng, rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.15:
            defs = {"d": "sin(c) + " + exprs.num(rng, 1), "g": "a - b"}
            text = exprs.num(rng, 2, ["a", "b", "d", "g"])
    text = rewrite.dyadic(text)
    if not exprs.pyeval.names(text, defs) or constant_relation(text) or not rewrite.alternatives(text):
        return
    profile = not boolean and rng.random() < 0.3
    ctx.log("axis {0!r} ({1}) defs={2}", text, "cut" if boolean else "profile" if profile else "bin", defs)
    ax = histbook.cut(text) if boolean else histbook.profile(text) if profile else histbook.bin(text, 4, 0, 4)
    opts = {"defs": dict(defs)} if defs else {}
    try:
        h = histbook.Hist(*(([histbook.bin("zz", 2, 0, 2)] if profile or rng.random() < 0.5 else []) + [ax]), **opts)
    except Exception as err:
        if any(x in str(err) for x in REFUSALS):
            return
        raise Violation("histogram of {0!r}: {1}: {2}".format(text, type(err).__name__, err))
    if boolean:
        ctx.seen("boolean_axes")

    # completeness
    for _ in range(4):
        eq = rewrite.equivalent(rng, text, defs)
        how, f = rng.choice(lookups(boolean, profile, eq))
        if eq in ("p", "q"):
            pass
        if not rewrite.alternatives(eq):
            continue
        ctx.log("equivalent {0!r} {1}", eq, how)
        ctx.signature(text, eq)
        try:
            f(h)
        except Exception as err:
            if any(x in str(err) for x in REFUSALS):
                continue
            raise Violation("axis {0!r} is not found by the equivalent {1!r} ({2}): {3}: {4}".format(text, eq, how, type(err).__name__, err))
        ctx.seen("equivalent_found")
        ctx.seen(how)

    # soundness
    others = []
    for _ in range(8):
        try:
            x = rewrite.nearly(rng, text, ["a", "b", "c"] if rng.random() < 0.8 else ["i", "j"])
        except (ValueError, IndexError):
            x = None
        if x is not None:
            if rng.random() < 0.3:
                try:
                    x = rewrite.equivalent(rng, x)
                except (ValueError, IndexError):
                    pass
            others.append(x)
    if index % 4 == 0:
        others = rng.sample(SMALLBOOL if boolean else SMALLNUM, 40)
        ctx.seen("small_pairs", 40)
    for x in others:
        how, f = rng.choice(lookups(boolean, profile, x))
        if not rewrite.alternatives(x):
            continue
        ctx.log("other {0!r} {1}", x, how)
        ctx.signature(text, x)
        try:
            f(h)
        except Exception:
            ctx.seen("different_refused")
            continue
        ctx.seen(how)
        compare_meaning(ctx, text, x, how, rows, defs)
