"""Random specifications and hostile data."""
import math

import numpy

from hbv import model, observe, pyeval

NUMERIC = ["float64", "float64", "float64", "float32", "float16", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", ">f8", ">i4"]
STRINGS = ["one", "two", "three", "", "ONE", "a b", u"\u00e9", "one ", " two", "NaN", "1", "True", "it's \"x\""]
KINDS = ["bin", "bin", "split", "intbin", "cut", "groupby", "groupbin"]


def flags(rng, names, p=0.25):
    return dict((n, rng.random() >= p) for n in names)


# ------------------------------------------------------------------ axes

NUMEXPR = ["a", "b", "c", "a + b", "a - b", "2*a", "a*b", "b - a", "a + 0.5", "c + a + b", "i", "i + j", "a + i", "-a", "a*2 + b"]
BOOLEXPR = ["p", "q", "not p", "a > b", "a >= 0.5", "p and q", "p or q", "a < 1 and p", "i == 1", "i in {1, 2}", "s == 'one'", "0 < a < 2", "p and not q"]
INTEXPR = ["n", "m", "n", "i", "j", "i + j", "i - j"]
CATEXPR = ["s", "t", "i", "p", "n"]
ANYEXPR = ["x", "y", "z"]


def edge_list(rng, count):
    return sorted(rng.sample([k * 0.5 for k in range(-6, 9)], count))


def gen_axis(rng, kind=None, expr=None, fieldonly=False, decimal=True, catexpr=None):
    k = kind or rng.choice(KINDS)

    def pick(bare, exprs):
        if expr is not None:
            return expr
        return rng.choice(bare) if fieldonly or rng.random() < 0.6 else rng.choice(exprs)
    if k == "bin":
        n = rng.choice([1, 1, 2, 3, 4, 4, 5, 6, 8, 10, 13])
        lo = rng.choice([0, 0, -1, -2, 0.5, -0.25, 1, -3])
        if decimal and rng.random() < 0.25:
            width = rng.choice([0.1, 0.3, 1.0 / 3, 0.7, 1.1])
        else:
            width = rng.choice([0.25, 0.5, 0.5, 1, 1, 2, 0.75, 3, 1.25])
        if rng.random() < 0.03:
            width, lo = rng.choice([1024.0, 2.0**-8, 49.0, 100.0, 3.0 * 2**-10]), rng.choice([0, 1000, -4096])
        s = model.binaxis(pick(ANYEXPR, NUMEXPR), n, lo, lo + n * width, **flags(rng, ["u", "o", "nan", "cl"]))
        return s
    elif k == "split":
        while True:
            c = rng.choice([1, 2, 2, 3, 3, 4, 5])
            e = edge_list(rng, c)
            if decimal and rng.random() < 0.15:
                e = [x + 0.1 for x in e]
            f = flags(rng, ["u", "o", "nan", "cl"])
            if c == 1 and not (f["u"] or f["o"] or f["nan"]):
                continue
            return model.splitaxis(pick(ANYEXPR, NUMEXPR), e, **f)
    elif k == "intbin":
        lo = rng.choice([0, 0, 1, -1, -3, 2, 5])
        return dict(model.axis("intbin", expr or rng.choice(["n", "m"] if fieldonly else INTEXPR), min=lo, max=lo + rng.choice([0, 1, 2, 3, 5])), **flags(rng, ["u", "o"]))
    elif k == "cut":
        return model.axis("cut", expr or (rng.choice(["p", "q"]) if fieldonly else rng.choice(BOOLEXPR)))
    elif k == "groupby":
        return model.axis("groupby", expr or rng.choice(catexpr or (["s", "t", "i", "p"] if fieldonly else CATEXPR)))
    elif k == "groupbin":
        bw = rng.choice([0.5, 1, 1, 2, 0.25, 4, 0.75, 3, 49, 1.25]) if not decimal or rng.random() < 0.8 else rng.choice([0.1, 0.3, 3])
        return dict(model.axis("groupbin", pick(ANYEXPR, NUMEXPR), bw=float(bw), **{"or": float(rng.choice([0, 0, 0, 0.25, -1, 0.5, 100]))}), **flags(rng, ["nan", "cl"]))
    raise AssertionError(k)


def widen(rng, a, p=0.05):
    """Now and then, an axis of many bins."""
    if rng.random() >= p:
        return a
    n = rng.choice([16, 17, 31, 32, 33, 50, 64, 100, 130])
    if a["k"] == "bin" and a["n"] > 0:
        width = rng.choice([0.125, 0.25, 0.5, 0.375])
        return dict(a, n=n, lo=-1.0, hi=-1.0 + n * width)
    if a["k"] == "split":
        return dict(a, edges=tuple(sorted(rng.sample([k * 0.125 for k in range(-40, 100)], n))))
    if a["k"] == "intbin":
        return dict(a, min=-n // 2, max=n // 2)
    if a["k"] == "groupbin":
        return dict(a, bw=rng.choice([0.125, 0.0625]))
    return a


def gen_axes(rng, count, kinds=None, maxgroup=2, distinct=True, **kw):
    out = []
    tries = 0
    if count >= 2 and maxgroup >= 2 and kinds is None and rng.random() < 0.12:
        out.append(gen_axis(rng, rng.choice(["groupby", "groupby", "groupbin"]), **kw))
        kinds = ["groupby", "groupby", "groupbin"] + KINDS
    while len(out) < count and tries < 100:
        tries += 1
        a = gen_axis(rng, kind=rng.choice(kinds) if kinds else None, **kw)
        if a["k"] in ("groupby", "groupbin") and sum(1 for x in out if x["k"] in ("groupby", "groupbin")) >= maxgroup:
            continue
        if distinct and any(x["expr"] == a["expr"] for x in out):
            continue
        out.append(a)
    if out and len(out) <= 3:
        k = rng.randrange(len(out))
        out[k] = widen(rng, out[k])
    return out


WEIGHTS = ["w", "w", "w", "2*a", "a + b", "w*a", "abs(w)", 2, 0.5, -1, 3.25, 0, 2.0**-13]
FILTERS = ["p and q", "a > 0", "not p", "a >= b", "i != 1", "s == 'one'", "a > 0 or p", "0 <= a < 2", "x > 1"]
PROFILES = ["a", "b", "y", "z", "a + b", "a*b", "i", "2*a - b", "n", "w", "c"]


DEFS = {"dw": ["2*a", "a + b", "w*2"], "dcut": ["a > 0", "q and b > 0", "b < 1"], "dv": ["a - 2*b", "3*a", "b + 0.25"]}


def gen_spec(rng, axes=None, naxes=None, weight=None, filter=None, profiles=None, defs=0.08, **kw):
    """weight/filter/profiles: probability or None for the default mix; defs: probability of definitions used by them."""
    if axes is None:
        axes = gen_axes(rng, naxes if naxes is not None else rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4]), **kw)
    w = rng.choice(WEIGHTS) if rng.random() < (0.4 if weight is None else weight) else None
    f = rng.choice(FILTERS) if rng.random() < (0.25 if filter is None else filter) else None
    pr = []
    if rng.random() < (0.35 if profiles is None else profiles):
        pr = rng.sample(PROFILES, rng.choice([1, 1, 1, 2, 2, 3, 3, 5]))
    out = model.Spec(axes, pr, w, f)
    if rng.random() < defs:
        out.defs = dict((n, rng.choice(x)) for n, x in sorted(DEFS.items()))
        if isinstance(w, str):
            out.weight = rng.choice(["dw", "dw", "dw*a", "2*dw"])
        if f is not None:
            out.filter = rng.choice(["dcut", "not dcut", "dcut and p"])
        if pr:
            out.profiles = rng.sample(["dv", "dv + a", "2*dv"], 1) + pr[1:]
        done = set()
        for a in out.axes:
            new = "dcut" if a["k"] == "cut" else "dv" if a["k"] in ("bin", "split", "groupbin") and a["expr"] in NUMEXPR else None
            if new is not None and new not in done and rng.random() < 0.7:
                done.add(new)
                a["expr"] = new
    return out


# ------------------------------------------------------------------ data

def interesting(spec_or_axes):
    """Values at and around the edges of the axes, by field (bare field references only)."""
    out = {}
    axes = spec_or_axes.axes if isinstance(spec_or_axes, model.Spec) else spec_or_axes
    for a in axes:
        if a["k"] in ("bin", "split"):
            e = model.edges_of(a)
        elif a["k"] == "intbin":
            e = [a["min"], a["max"], a["min"] - 1, a["max"] + 1]
        elif a["k"] == "groupbin":
            e = [a["or"] + a["bw"] * k for k in (-2, -1, 0, 1, 2)]
        else:
            continue
        out.setdefault(a["expr"], []).extend(e)
    return out


def finite_value(rng, near):
    r = rng.random()
    if near and r < 0.45:
        v = rng.choice(near)
        r = rng.random()
        if r < 0.5:
            return v
        elif r < 0.6:
            return float(numpy.nextafter(v, 1e9))
        elif r < 0.7:
            return float(numpy.nextafter(v, -1e9))
        return v + rng.choice([-0.25, 0.25, -0.5, 0.5, -1, 1, 0.125])
    elif r < 0.75:
        return rng.randrange(-20, 29) * 0.25
    elif r < 0.95:
        return rng.uniform(-4, 6)
    return rng.choice([100.0, -100.0, 1e6, -1e6, 0.0, -0.0])


def sprinkle(rng, vals, pool, p):
    """Special values among others: many, or a single one anywhere."""
    if vals and rng.random() < 0.25:
        vals = list(vals)
        vals[rng.choice([0, len(vals) - 1, rng.randrange(len(vals))])] = rng.choice(pool)
        return vals
    return [rng.choice(pool) if rng.random() < p else v for v in vals]


def column(rng, name, n, near, opts):
    """A numpy array of n values for the field."""
    if name in ("a", "b", "c"):
        return numpy.array([rng.randrange(-12, 17) * 0.25 for _ in range(n)], dtype="float64")
    if name in ("i", "j") and opts.get("wide", True) and rng.random() < 0.05:
        return numpy.array([rng.randrange(-150, 151) for _ in range(n)], dtype="int64")
    if name in ("i", "j"):
        pool = rng.sample(range(-2, 5), rng.choice([1, 2, 3])) if rng.random() < 0.3 else range(-2, 5)
        return numpy.array([rng.choice(pool) for _ in range(n)], dtype="int64")
    if name in ("p", "q"):
        return numpy.array([rng.random() < 0.5 for _ in range(n)], dtype=bool)
    if name in ("s", "t", "source"):
        k = rng.choice([1, 2, 3, 4, 7])
        pool = STRINGS[:k] if rng.random() < 0.5 else rng.sample(STRINGS, k)
        if opts.get("wide", True) and rng.random() < 0.07:
            pool = STRINGS + ["k%d" % k for k in range(60)] + ["%d" % k for k in range(8, 13)] + ["a string of more than some letters"]
        v = [rng.choice(pool) for _ in range(n)]
        if opts.get("objects", True) and rng.random() < 0.15:
            out = numpy.empty(n, dtype=object)
            out[:] = v
            return out
        return numpy.array(v, dtype="U5") if n == 0 or rng.random() < 0.3 else numpy.array(v)
    if name == "w":
        kind = rng.random()
        if kind < 0.3:
            return numpy.array([rng.randrange(0, 17) for _ in range(n)], dtype=rng.choice(["uint8", "int8", "int64", "int32", "uint16"]))
        vals = [rng.choice([0.5, 1, 2, 0.25, 3, 0, -1, -0.5, 10, rng.uniform(0, 2)]) for _ in range(n)]
        if rng.random() < 0.2 and opts.get("nanweight", True):
            vals = sprinkle(rng, vals, [float("nan")], 0.15)
        if rng.random() < 0.08:
            unit = rng.choice([2.0**-14, 2.0**-30, 2.0**20])
            vals = [v * unit for v in vals]
        return numpy.array(vals, dtype=rng.choice(["float64", "float64", "float32"]))
    dtype = rng.choice(NUMERIC) if opts.get("dtypes", True) else "float64"
    if name in ("n", "m"):
        vals = [rng.choice([int(x) for x in near if x == int(x)] + [0, 1]) if near and rng.random() < 0.6 else rng.randrange(-6, 12) for _ in range(n)]
        if "f" in dtype:
            if opts.get("special", True) and rng.random() < 0.4:
                vals = sprinkle(rng, vals, [float("nan"), float("inf"), -float("inf"), 1e300 if dtype in ("float64", ">f8") else 100.0], 0.15)
        elif rng.random() < 0.15 and opts.get("special", True):
            info = numpy.iinfo(dtype)
            vals = sprinkle(rng, vals, [info.min, info.max], 0.1)
    else:
        vals = [finite_value(rng, near) for _ in range(n)]
        if "f" in dtype:
            if opts.get("special", True) and rng.random() < 0.5:
                pool = [float("nan"), float("inf"), -float("inf")] + ([1e300, -1e300] if dtype in ("float64", ">f8") else [])
                vals = sprinkle(rng, vals, pool, 0.2)
        else:
            if rng.random() < 0.15 and opts.get("special", True) and "64" not in dtype:
                info = numpy.iinfo(dtype)
                vals = sprinkle(rng, vals, [info.min, info.max], 0.1)
    if "f" not in dtype:
        info = numpy.iinfo(dtype)
        vals = [min(max(int(math.floor(v)), int(info.min)), int(info.max)) for v in vals]
        if dtype in ("int64", "uint64"):
            vals = [v if abs(v) < 2**53 else (2**60 if v > 0 else -2**60) for v in vals]
    if dtype == "float16":
        vals = [max(-60000.0, min(60000.0, v)) if v == v and not math.isinf(v) else v for v in vals]
    elif dtype == "float32":
        vals = [max(-1e30, min(1e30, v)) if v == v and not math.isinf(v) else v for v in vals]
    return numpy.array(vals, dtype=dtype)


def rows_of(arrays, n=None):
    names = sorted(arrays)
    if not names:
        return [{} for _ in range(n or 0)]
    cols = [arrays[k].tolist() for k in names]
    return [dict(zip(names, vals)) for vals in zip(*cols)]


class Data(object):
    def __init__(self, arrays, rows):
        self.arrays, self.rows = arrays, rows

    def __len__(self):
        return len(self.rows)

    def take(self, index):
        idx = numpy.array(index, dtype=int)
        return Data(dict((k, v[idx]) for k, v in self.arrays.items()), [self.rows[i] for i in index])

    def inflate(self, rng, n):
        """n events drawn from these."""
        idx = [rng.randrange(len(self.rows)) for _ in range(n)] if self.rows else []
        if len(self.rows) > 1 and rng.random() < 0.5:
            # some events come late and only once
            late = rng.sample(range(len(self.rows)), rng.randrange(1, len(self.rows)))
            early = [k for k in range(len(self.rows)) if k not in set(late)]
            idx = [rng.choice(early) for _ in range(n - len(late))] + late
        return self.take(idx)

    def show(self):
        if len(self.rows) > 300:
            return "{0} events: {1}".format(len(self.rows), ", ".join("{0}={1}:{2}...".format(k, v.dtype.str, v[:30].tolist()) for k, v in sorted(self.arrays.items())))
        return ", ".join("{0}={1}:{2}".format(k, v.dtype.str, v.tolist()) for k, v in sorted(self.arrays.items()))

    def entries(self, factor=1.0):
        return [(r, factor) for r in self.rows]


def concat(parts):
    """Data of the same fields, one after the other (dtypes promoted by numpy; rows kept)."""
    parts = list(parts)
    names = parts[0].arrays.keys()
    return Data(dict((k, numpy.concatenate([p.arrays[k] for p in parts])) for k in names), [r for p in parts for r in p.rows])


def gen_data(rng, specs, n=None, extra=(), usable=None, **opts):
    """Data with the fields of the specs, without events whose bin depends on rounding."""
    if isinstance(specs, model.Spec):
        specs = [specs]
    if n is None:
        n = rng.choice([0, 1, 2, 5, 10, 20, 20, 40])
    fields = set(extra)
    near = {}
    for s in specs:
        fields.update(s.fields())
        for k, v in interesting(s).items():
            near.setdefault(k, []).extend(v)
    arrays = dict((f, column(rng, f, n, near.get(f), opts)) for f in sorted(fields))
    data = Data(arrays, rows_of(arrays, n))
    keep = [k for k, r in enumerate(data.rows) if all(model.unambiguous(s, r) for s in specs) and (usable is None or usable(r)) and nonan(specs, r)]
    if len(keep) != len(data.rows):
        data = data.take(keep)
    if rng.random() < opts.get("large", 0):
        data = data.inflate(rng, rng.choice([129, 257, 300, 1000, 1025, 5000, 33000, 70000]))
    return data


def nonan(specs, r):
    """Comparisons with NaN are not claimed under negation or for filters and weights of x, y, z."""
    for s in specs:
        if s.filter is not None:
            for f in pyeval.names(s.filter, s.defs):
                if r[f] != r[f]:
                    return False
        if isinstance(s.weight, str) and not model.bareref(s.weight):
            for f in pyeval.names(s.weight, s.defs):
                if r[f] != r[f]:
                    return False
    return True


def fill_hist(ctx, h, data, name="h", how=None, rng=None):
    """Fill and return; the log shows the data."""
    ctx.log("{0}.fill({1})", name, data.show())
    ctx.seen("fills")
    ctx.seen("events_filled", len(data))
    return ctx.do("{0}.fill".format(name), h.fill, dict(data.arrays))


def adds(ctx, rng, h, spec, want, what):
    """A derived histogram can be added to one that was constructed with its axes and filled; want: what is in h."""
    import histbook
    opts = dict((n, getattr(spec, n)) for n in ("weight", "filter") if getattr(spec, n) is not None)
    if spec.defs:
        opts["defs"] = dict(spec.defs)
    fresh = ctx.do("construct with the axes of the {0} histogram".format(what), histbook.Hist, *list(h.axis), **opts)
    data = gen_data(rng, spec, n=rng.choice([0, 3, 10]))
    fill_hist(ctx, fresh, data, "fresh")
    ctx.check(h.compatible(fresh) and fresh.compatible(h), "the {0} histogram isn't compatible with one constructed with its axes", what)
    total = ctx.do("{0} + fresh".format(what), (lambda: h + fresh) if rng.random() < 0.5 else (lambda: fresh + h))
    observe.check(ctx, total, spec, model.addbins(want, model.fill(spec, data.entries())), "{0} + fresh".format(what))
    ctx.seen("added_to_fresh")
