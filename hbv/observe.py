"""What a histogram shows through its public interface, in the terms of the model."""
import math

import numpy
import histbook
import histbook.axis

from hbv import model
from hbv.core import Violation


def keyof(axis, key):
    """Canonical key of a label from axis.keys() or of a dictionary key of a group axis."""
    kind = type(axis).__name__
    if kind == "groupby":
        if isinstance(key, numpy.generic):
            key = key.item()
        return model.gkey(key)
    if isinstance(key, histbook.axis.IntervalNaN):
        return ("NaN",)
    if isinstance(key, histbook.axis.Interval):
        return model.interval(key.low, key.high, bool(key.closedlow), bool(key.closedhigh))
    if kind == "groupbin":
        if isinstance(key, str):
            if key != "NaN":
                raise Violation("groupbin key {0!r}".format(key))
            return ("NaN",)
        return model.interval(key, key + axis.binwidth, axis.closedlow, not axis.closedlow)
    if kind == "cut":
        return ("b", bool(key))
    if kind == "intbin":
        return ("n", int(key))
    raise AssertionError((kind, key))


def axes(h):
    out = list(h.axis)
    group = [x for x in out if isinstance(x, histbook.axis.GroupAxis)]
    fixed = [x for x in out if isinstance(x, histbook.axis.FixedAxis)]
    prof = [x for x in out if isinstance(x, histbook.axis.ProfileAxis)]
    return group, fixed, prof


def content(h):
    """{keys: [count, err, effcount, prof1, err1, ...]} of all bins that are not zero."""
    group, fixed, prof = axes(h)
    tab = h.table(*prof, count=True, effcount=True, error=True, recarray=False)
    return flatten(tab, group, fixed, 3 + 2 * len(prof))


def flatten(tab, group, fixed, ncols, keepzeros=False):
    labels = [[keyof(x, k) for k in x.keys()] for x in fixed]
    shape = tuple(len(x) for x in labels)
    for x in labels:
        if len(set(x)) != len(x):
            raise Violation("axis has two bins of the same label: {0}".format(x))
    out = {}

    def recurse(j, node, keys):
        if j < len(group):
            if not isinstance(node, dict):
                raise Violation("table of a histogram with group axes is {0}, not nested dicts".format(type(node)))
            for n, x in node.items():
                recurse(j + 1, x, keys + (keyof(group[j], n),))
        else:
            if node.shape != shape + (ncols,):
                raise Violation("shape of the table is {0} but the axes and columns have {1}".format(node.shape, shape + (ncols,)))
            flat = node.reshape((-1, ncols)).tolist()
            idx = range(len(flat))
            for i in idx:
                vals = flat[i]
                if keepzeros or any(v != 0 for v in vals):
                    k, r = [], i
                    for lab in reversed(labels):
                        k.append(lab[r % len(lab)])
                        r //= len(lab)
                    full = keys + tuple(reversed(k))
                    if full in out and not keepzeros:
                        raise Violation("bin {0} occurs twice".format(full))
                    out[full] = vals

    recurse(0, tab, ())
    return out


EPS = 1e-9


def close(x, y, scale):
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= EPS * scale + 1e-300


def root(x, scale):
    """Acceptable interval of sqrt(x) when x is known to within EPS*scale; None if it may be NaN or anything."""
    return (math.sqrt(max(0.0, x - EPS * scale)), math.sqrt(max(0.0, x + EPS * scale)))


def compare(got, want, weighted, nprof, what, profiles=True):
    """got: content(h).  want: {keys: model.Bin}.  Raises Violation where they differ."""
    n = 0
    for keys, b in want.items():
        vals = got.get(keys)
        if vals is None:
            vals = [0.0] * (3 + 2 * nprof)
        cmpbin(keys, vals, b, weighted, nprof, what, profiles)
        n += 1
    for keys, vals in got.items():
        if keys not in want and any(v != 0 for v in vals):
            raise Violation("{0}: bin {1} has {2} but should be empty".format(what, keys, vals))
    return n


def cmpbin(keys, vals, b, weighted, nprof, what, profiles=True):
    def bad(name, x, y):
        raise Violation("{0}: bin {1} has {2} {3!r}, expected {4!r} (from {5} events)".format(what, keys, name, x, y, b.n))
    if not close(vals[0], b.w, b.aw):
        bad("count", vals[0], b.w)
    v, scale = (b.w2, b.aw2) if weighted else (b.w, b.aw)
    if v < -EPS * scale:
        if vals[1] == vals[1]:
            bad("error", vals[1], float("nan"))
    elif vals[1] != vals[1]:
        if v > EPS * scale:
            bad("error", vals[1], math.sqrt(v))
    else:
        lo, hi = root(v, scale)
        if not lo * (1 - EPS) - 1e-300 <= vals[1] <= hi * (1 + EPS) + 1e-300:
            bad("error", vals[1], math.sqrt(max(0, v)))
    if not b.w > 1e-6 * b.aw:
        return
    if weighted:
        if not b.w2 > 1e-6 * b.aw2:
            return
        eff, efftol = b.w * b.w / b.w2, 1e-8 * (b.aw / b.w) ** 2 * (b.aw2 / b.w2)
    else:
        eff, efftol = b.w, 1e-8
    if not abs(vals[2] - eff) <= efftol * eff:
        bad("effcount", vals[2], eff)
    if not profiles:
        return
    for i in range(nprof):
        mean = b.wx[i] / b.w
        got = vals[3 + 2 * i]
        if not close(got, mean, 10 * b.awx[i] / b.w * (b.aw / b.w)):
            bad("mean of profile {0}".format(i), got, mean)
        if math.isinf(mean) or mean != mean:
            continue
        err = vals[4 + 2 * i]
        m2 = b.wx2[i] / b.w
        if math.isinf(m2) or m2 != m2:
            continue
        var = m2 - mean * mean
        scale = 10 * (b.awx2[i] / b.w + (b.awx[i] / b.w) ** 2) * (b.aw / b.w) ** 2
        if err != err:
            bad("error of profile {0}".format(i), err, math.sqrt(max(0, var) / eff))
        lo, hi = root(var, scale)
        e = err * math.sqrt(eff)
        if not lo * (1 - 1e-6) - 1e-300 <= e <= hi * (1 + 1e-6) + 1e-300:
            bad("error of profile {0}".format(i), err, math.sqrt(max(0, var) / eff))


def check(ctx, h, spec, want, what):
    """The histogram holds exactly what the model says."""
    try:
        got = content(h)
    except Violation as err:
        raise Violation("{0}: {1}".format(what, err))
    except Exception as err:
        import traceback
        raise Violation("{0}: reading the table raised {1}: {2}\n{3}".format(what, type(err).__name__, err, traceback.format_exc()))
    n = compare(got, want, spec.weighted, len(spec.profiles), what)
    ctx.seen("histograms_compared")
    ctx.seen("bins_compared", n)
    return got
