"""Reference model: what a histogram must contain, computed event by event in plain Python (no numpy).

An axis is a dict (see make_axis), a histogram specification a Spec, an event a dict of Python scalars.
Bins are named by canonical keys so that model and code under test can be compared whatever their layout:
    ("I", low, high, closedlow, closedhigh)   interval        ("NaN",)   the NaN bin
    ("n", i)  integer bin      ("b", bool)  failing/passing   ("g", value)  category
"""
import math
from fractions import Fraction

from hbv import pyeval

AMBIGUOUS = ("?",)
INF = float("inf")
MARGIN = 1e-9


def num(x):
    """Canonical rendering of an edge, insensitive to rounding in the last digits."""
    x = float(x)
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    x *= 1 + 1.2345e-11        # away from ties of the rounding: 0.029296875 and its neighbours have one rendering
    if abs(x) < 1e6:
        x = round(x, 8)
    return "%.8g" % (x + 0.0)


def interval(lo, hi, cl, ch):
    lo, hi = num(lo), num(hi)
    return ("I", lo, hi, cl or lo == "-inf", ch or hi == "inf")


def gkey(v):
    if isinstance(v, str):
        return ("g", v)
    elif isinstance(v, bool):
        return ("g", v)
    else:
        return ("g", "num:" + num(v) if v == v else "num:nan")


# ------------------------------------------------------------------ axes

def axis(kind, expr, **kw):
    out = {"k": kind, "expr": expr}
    out.update(kw)
    return out


def binaxis(expr, n, lo, hi, u=True, o=True, nan=True, cl=True):
    return axis("bin", expr, n=n, lo=float(lo), hi=float(hi), u=u, o=o, nan=nan, cl=cl)


def splitaxis(expr, edges, u=True, o=True, nan=True, cl=True):
    return axis("split", expr, edges=tuple(sorted(float(x) for x in edges)), u=u, o=o, nan=nan, cl=cl)


def make_axis(spec):
    import histbook
    k = spec["k"]
    if k == "groupby":
        return histbook.groupby(spec["expr"])
    elif k == "groupbin":
        return histbook.groupbin(spec["expr"], spec["bw"], origin=spec["or"], nanflow=spec["nan"], closedlow=spec["cl"])
    elif k == "bin":
        return histbook.bin(spec["expr"], spec["n"], spec["lo"], spec["hi"], underflow=spec["u"], overflow=spec["o"], nanflow=spec["nan"], closedlow=spec["cl"])
    elif k == "intbin":
        return histbook.intbin(spec["expr"], spec["min"], spec["max"], underflow=spec["u"], overflow=spec["o"])
    elif k == "split":
        return histbook.split(spec["expr"], spec["edges"], underflow=spec["u"], overflow=spec["o"], nanflow=spec["nan"], closedlow=spec["cl"])
    elif k == "cut":
        return histbook.cut(spec["expr"])
    elif k == "profile":
        return histbook.profile(spec["expr"])
    raise AssertionError(spec)


def spec_of(ax):
    """Axis dict from the public properties of an axis object."""
    k = type(ax).__name__
    if k in ("groupby", "cut", "profile"):
        return axis(k, ax.expr)
    elif k == "groupbin":
        return {"k": k, "expr": ax.expr, "bw": float(ax.binwidth), "or": float(ax.origin), "nan": ax.nanflow, "cl": ax.closedlow}
    elif k == "bin":
        return binaxis(ax.expr, ax.numbins, ax.low, ax.high, ax.underflow, ax.overflow, ax.nanflow, ax.closedlow)
    elif k == "intbin":
        return {"k": k, "expr": ax.expr, "min": ax.min, "max": ax.max, "u": ax.underflow, "o": ax.overflow}
    elif k == "split":
        return splitaxis(ax.expr, ax.edges, ax.underflow, ax.overflow, ax.nanflow, ax.closedlow)
    raise AssertionError(k)


def show_axis(s):
    k = s["k"]
    if k in ("groupby", "cut", "profile"):
        return "{0}({1!r})".format(k, s["expr"])
    return "{0}({1!r}, {2})".format(k, s["expr"], ", ".join("{0}={1!r}".format(n, s[n]) for n in s if n not in ("k", "expr")))


def edges_of(s):
    if s["k"] == "bin":
        if s["n"] == 0:
            return [s["lo"]]
        return [s["lo"] + (s["hi"] - s["lo"]) * i / float(s["n"]) for i in range(s["n"])] + [s["hi"]]
    elif s["k"] == "split":
        return list(s["edges"])
    raise AssertionError(s)


def model_keys(s):
    """Expected keys of a fixed axis in order."""
    k = s["k"]
    if k == "cut":
        return [("b", False), ("b", True)]
    if k == "intbin":
        return ([("I", "-inf", num(s["min"]), True, False)] if s["u"] else []) + [("n", i) for i in range(s["min"], s["max"] + 1)] + ([("I", num(s["max"]), "inf", False, True)] if s["o"] else [])
    edges = edges_of(s)
    cl = s["cl"]
    out = []
    if s["u"]:
        out.append(interval(-INF, edges[0], True, not cl))
    for a, b in zip(edges[:-1], edges[1:]):
        out.append(interval(a, b, cl, not cl))
    if s["o"]:
        out.append(interval(edges[-1], INF, cl, True))
    if s["nan"]:
        out.append(("NaN",))
    return out


def _exactfloat(f):
    """Whether a Fraction is a double."""
    try:
        return Fraction(float(f)) == f
    except OverflowError:
        return False


def find(s, v, exact=True):
    """Key of the bin that holds v; None if there is none; AMBIGUOUS if rounding may decide."""
    k = s["k"]
    if k == "cut":
        return ("b", bool(v))
    if k == "groupby":
        if isinstance(v, float) and math.isnan(v):
            return AMBIGUOUS
        if not exact and not isinstance(v, (str, bool, int)):
            return AMBIGUOUS
        return gkey(v)
    fv = float(v)
    if k == "intbin":
        if math.isnan(fv):
            return None
        if fv == INF or (math.isfinite(fv) and fv > s["max"] and fv == math.floor(fv)):
            return ("I", num(s["max"]), "inf", False, True) if s["o"] else None
        if fv == -INF or (math.isfinite(fv) and fv < s["min"] and fv == math.floor(fv)):
            return ("I", "-inf", num(s["min"]), True, False) if s["u"] else None
        if fv != math.floor(fv):
            return AMBIGUOUS
        return ("n", int(fv))
    if math.isnan(fv):
        return ("NaN",) if s["nan"] else None
    cl = s["cl"]
    if k == "groupbin":
        bw, org = s["bw"], s["or"]
        if math.isinf(fv):
            return interval(fv, fv, cl, not cl)
        fx = (Fraction(fv) - Fraction(org)) / Fraction(bw)
        near = int(math.floor(fx + Fraction(1, 2)))
        if abs(fx - near) <= MARGIN * max(1.0, abs(fx)):
            ok = exact and abs(near) < 2**40 and all(_exactfloat(near * Fraction(bw) + o) for o in (0, Fraction(org)))
            if not ok and abs(fv) < 1e200:
                return AMBIGUOUS
        idx = math.floor(fx) if cl else math.ceil(fx) - 1
        lo = float(idx * Fraction(bw) + Fraction(org))
        return interval(lo, lo + bw, cl, not cl)
    if k == "split":
        edges = s["edges"]
        if not exact and any(abs(fv - e) <= MARGIN * max(1.0, abs(e)) for e in edges):
            return AMBIGUOUS
        below = [e for e in edges if (e <= fv if cl else e < fv)]
        i = len(below)
    elif k == "bin":
        n, lo, hi = s["n"], s["lo"], s["hi"]
        edges = edges_of(s)
        if math.isinf(fv):
            i = len(edges) if fv > 0 else 0
        else:
            flo, fhi, x = Fraction(lo), Fraction(hi), Fraction(fv)
            scale = Fraction(n) / (fhi - flo) if n > 0 else Fraction(1)
            fx = (x - flo) * scale
            near = int(math.floor(fx + Fraction(1, 2)))
            if 0 <= near <= n and abs(fx - near) <= MARGIN * (1 + n):
                # decided by the edge if that is a number without rounding
                if not exact:
                    return AMBIGUOUS
                if near not in (0, n) and not all(_exactfloat(e) for e in (fhi - flo, near * (fhi - flo), near / scale, near / scale + flo)):
                    return AMBIGUOUS
            idx = math.floor(fx) if cl else math.ceil(fx) - 1
            i = min(max(idx + 1, 0), n + 1)
            if n == 0:
                i = 1 if idx >= 0 else 0
                edges = [lo]
    else:
        raise AssertionError(s)
    if i == 0:
        return interval(-INF, edges[0], True, not cl) if s["u"] else None
    elif i == len(edges):
        return interval(edges[-1], INF, cl, True) if s["o"] else None
    else:
        return interval(edges[i - 1], edges[i], cl, not cl)


# ------------------------------------------------------------------ histograms

class Spec(object):
    def __init__(self, axes, profiles=(), weight=None, filter=None, defs=None, attachment=None):
        self.axes = list(axes)
        self.profiles = list(profiles)
        self.weight, self.filter, self.defs, self.attachment = weight, filter, dict(defs or {}), dict(attachment or {})

    def replace(self, **kw):
        out = Spec(self.axes, self.profiles, self.weight, self.filter, self.defs, self.attachment)
        for n, x in kw.items():
            assert hasattr(out, n)
            setattr(out, n, x)
        return out

    @property
    def weighted(self):
        return self.weight is not None or self.filter is not None

    @property
    def ordered(self):
        return [a for a in self.axes if a["k"] in ("groupby", "groupbin")] + [a for a in self.axes if a["k"] not in ("groupby", "groupbin")]

    def make(self, **opts):
        import histbook
        if self.weight is not None:
            opts["weight"] = self.weight
        if self.filter is not None:
            opts["filter"] = self.filter
        if self.defs:
            opts["defs"] = dict(self.defs)
        if self.attachment:
            opts["attachment"] = dict(self.attachment)
        return histbook.Hist(*([make_axis(a) for a in self.axes] + [histbook.profile(p) for p in self.profiles]), **opts)

    def __str__(self):
        out = [show_axis(a) for a in self.axes] + ["profile({0!r})".format(p) for p in self.profiles]
        for n in ("weight", "filter"):
            if getattr(self, n) is not None:
                out.append("{0}={1!r}".format(n, getattr(self, n)))
        if self.defs:
            out.append("defs={0!r}".format(self.defs))
        return "Hist({0})".format(", ".join(out))

    def fields(self):
        exprs = [a["expr"] for a in self.axes] + self.profiles
        if isinstance(self.weight, str):
            exprs.append(self.weight)
        if self.filter is not None:
            exprs.append(self.filter)
        out = set()
        for e in exprs:
            out.update(pyeval.names(e, self.defs))
        return sorted(out)


def bareref(expr):
    return isinstance(expr, str) and expr.isidentifier()


def locate(spec, row, axes=None):
    """Tuple of keys (group axes first, as in a histogram), None if some axis has no bin, AMBIGUOUS if unclear."""
    out = []
    amb = False
    for a in (spec.ordered if axes is None else axes):
        e = a["expr"]
        v = pyeval.value(e, row, spec.defs)
        key = find(a, v, exact=(bareref(e) and e not in spec.defs) or pyeval.exactarith(e, spec.defs))
        if key is None:
            out = None
            break
        if key is AMBIGUOUS:
            amb = True
            continue
        out.append(key)
    if amb and out is not None:
        return AMBIGUOUS
    return None if out is None else tuple(out)


def weight_of(spec, row):
    """None if unweighted, else the weight (0 if filtered out or NaN)."""
    if not spec.weighted:
        return None
    if spec.filter is not None and not pyeval.value(spec.filter, row, spec.defs):
        return 0.0
    if spec.weight is None:
        return 1.0
    w = float(spec.weight if not isinstance(spec.weight, str) else pyeval.value(spec.weight, row, spec.defs))
    return 0.0 if math.isnan(w) else w


def unambiguous(spec, row):
    """Whether the model can say where the event belongs."""
    return not any(locate(spec, row, [a]) is AMBIGUOUS for a in spec.ordered)


class Bin(object):
    """Accumulated sums of a bin, with sums of absolute values to scale tolerances."""
    __slots__ = ("w", "w2", "aw", "aw2", "wx", "wx2", "awx", "awx2", "n")

    def __init__(self, nprof):
        self.w = self.w2 = self.aw = self.aw2 = 0.0
        self.wx, self.wx2, self.awx, self.awx2 = [0.0] * nprof, [0.0] * nprof, [0.0] * nprof, [0.0] * nprof
        self.n = 0


def fill(spec, entries):
    """entries: iterable of (row, factor).  Returns {keys: Bin}."""
    out = {}
    nprof = len(spec.profiles)
    entries = list(entries)
    times = None
    if len(entries) > 300:
        # large workloads repeat the same rows
        times, first = {}, {}
        for row, factor in entries:
            k = id(row), factor
            times[k] = times.get(k, 0) + 1
            first.setdefault(k, row)
        entries = [(row, k[1]) for k, row in first.items()]
    for row, factor in entries:
        keys = locate(spec, row)
        if keys is None:
            continue
        assert keys is not AMBIGUOUS, "ambiguous event in the model"
        w = weight_of(spec, row)
        b = out.get(keys)
        if b is None:
            b = out[keys] = Bin(nprof)
        n = 1 if times is None else times[id(row), factor]
        b.n += n
        factor = factor * n
        w2 = 1.0 if w is None else w * w
        w = 1.0 if w is None else w
        b.w += w * factor
        b.w2 += w2 * factor
        b.aw += abs(w * factor)
        b.aw2 += abs(w2 * factor)
        if w != 0:
            for i, p in enumerate(spec.profiles):
                x = float(pyeval.value(p, row, spec.defs))
                b.wx[i] += w * x * factor
                b.wx2[i] += w * x * x * factor
                b.awx[i] += abs(w * x * factor)
                b.awx2[i] += abs(w * x * x * factor)
    return out


def addbins(one, two):
    """Sum of two contents (not shared with either)."""
    out = {}
    for src in (one, two):
        for k, b in src.items():
            if k not in out:
                out[k] = Bin(len(b.wx))
            t = out[k]
            t.n += b.n
            for f in ("w", "w2", "aw", "aw2"):
                setattr(t, f, getattr(t, f) + getattr(b, f))
            for f in ("wx", "wx2", "awx", "awx2"):
                setattr(t, f, [x + y for x, y in zip(getattr(t, f), getattr(b, f))])
    return out


def scalebins(one, factor):
    out = {}
    for k, b in one.items():
        t = out[k] = Bin(len(b.wx))
        t.n = b.n
        t.w, t.w2, t.aw, t.aw2 = b.w * factor, b.w2 * factor, abs(b.aw * factor), abs(b.aw2 * factor)
        t.wx, t.wx2 = [x * factor for x in b.wx], [x * factor for x in b.wx2]
        t.awx, t.awx2 = [abs(x * factor) for x in b.awx], [abs(x * factor) for x in b.awx2]
    return out
