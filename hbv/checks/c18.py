"""C18: a failed operation changes nothing."""
import operator

import numpy
import histbook

from hbv import gen, model, mutate, observe
from hbv.core import Refused
from hbv.checks import c11

QUICK, THOROUGH = 2800, 100000
RULE = "a case = histograms and a nested book driven by good fills and failing operations (missing, misshapen or unusable fields, faults injected at a random point of the evaluation, refused operations); everything fingerprinted around each failure; distinct = sequence of (operation, outcome)"
REQUIRED = ["fail_missing", "fail_length", "fail_dimensions", "fail_strings", "fail_objects", "fail_bomb", "fail_mapping", "fail_arraylike", "fail_unhashable", "fail_unsortable", "bomb_survived", "book_failures", "hist_failures", "refused_add", "refused_iadd", "refused_group", "refused_togroup",
            "refused_project", "refused_rebin", "refused_rebinby", "refused_select", "refused_drop", "refused_lookup", "refused_scale", "refused_table", "refused_book", "fills_after_failure", "fingerprints_compared", "group_failures", "fail_plot", "copyonfill_failures"]


class Injected(Exception):
    pass


class Fuse(object):
    def __init__(self, n):
        self.n, self.blown = n, False

    def burn(self):
        self.n -= 1
        if self.n < 0:
            self.blown = True
            raise Injected("injected fault")


class Bomb(object):
    """A number that fails at some operation."""
    def __init__(self, value, fuse):
        self.value, self.fuse = value, fuse

    def __float__(self):
        self.fuse.burn()
        return float(self.value)

    def __int__(self):
        self.fuse.burn()
        return int(self.value)

    def __bool__(self):
        self.fuse.burn()
        return bool(self.value)

    __hash__ = None


def _operation(name):
    function = getattr(operator, name.replace("__r", "__") if name in ("__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rpow__") else name)
    compare = name in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__")

    def method(self, *others):
        self.fuse.burn()
        args = [self.value] + [x.value if isinstance(x, Bomb) else x for x in others]
        out = function(*(args[::-1] if name.startswith("__r") else args))
        return out if compare else Bomb(out, self.fuse)
    return method


for _name in ("__add__", "__sub__", "__mul__", "__truediv__", "__pow__", "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rpow__", "__neg__", "__pos__", "__abs__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
    setattr(Bomb, _name, _operation(_name))


class Key(object):
    """Cannot be put in an order."""
    def __init__(self, fuse):
        self.fuse = fuse

    def __lt__(self, other):
        raise Injected("no order")

    __gt__ = __le__ = __ge__ = __lt__


class ArrayLike(object):
    def __init__(self, array, fuse):
        self.array, self.fuse = array, fuse

    def __array__(self, *args, **kwargs):
        self.fuse.burn()
        return self.array

    def __len__(self):
        return len(self.array)


class Mapping(dict):
    """Fails at the n-th lookup."""
    fuse = None

    def __getitem__(self, k):
        self.fuse.burn()
        return dict.__getitem__(self, k)

    def get(self, k, *default):
        self.fuse.burn()
        return dict.get(self, k, *default)


def objects(values):
    out = numpy.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


class Case(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.items = []          # [hist, spec, entries, name]
        self.ops = []

    def new(self, spec, name):
        h = self.ctx.do("{0} = {1}".format(name, spec), spec.make)
        self.items.append([h, spec, [], name])
        return h

    def fingerprints(self):
        return [c11.fingerprint(x[0]) for x in self.items] + [[(n, id(x)) for n, x in self.book.allitems()], sorted(self.book.attachment.items())]

    def unchanged(self, before, what):
        after = self.fingerprints()
        self.ctx.seen("fingerprints_compared", len(after))
        for i, (x, y) in enumerate(zip(before, after)):
            self.ctx.check(x == y, "{0} failed but changed {1}\n  from {2}\n  to   {3}", what, self.items[i][3] if i < len(self.items) else "the book", x, y)

    def failing(self, kind, text, must, fcn, *args, **kwargs):
        """Run something that fails; True if it did."""
        before = self.fingerprints()
        self.ctx.log(text)
        try:
            fcn(*args, **kwargs)
        except Exception as err:
            self.ctx.log("  {0}: {1}", type(err).__name__, str(err).replace("\n", " ")[:150])
        else:
            if must:
                self.ctx.fail("{0} did not raise an error".format(text))
            return False
        self.unchanged(before, text)
        self.ctx.seen(kind)
        self.ops.append(kind)
        return True


def fill_targets(case, rng):
    """(object to fill, items it fills, name)"""
    r = rng.random()
    if r < 0.5:
        x = rng.choice(case.items)
        return x[0], [x], x[3]
    elif r < 0.85:
        return case.book, case.inbook, "book"
    inner = [x for x in case.inbook if x[3].startswith("n/")]
    return (case.book["n"], inner, "book['n']") if inner else (case.book, case.inbook, "book")


def good_fill(case, rng, target=None):
    ctx = case.ctx
    obj, items, name = target or fill_targets(case, rng)
    data = gen.gen_data(rng, [x[1] for x in items], n=rng.choice([0, 3, 10, 25]))
    ctx.log("{0}.fill({1})", name, data.show())
    ctx.do("{0}.fill".format(name), obj.fill, dict(data.arrays))
    for x in items:
        x[2] = x[2] + data.entries()
    for x in case.items:
        observe.check(ctx, x[0], x[1], model.fill(x[1], x[2]), "{0} after filling {1}".format(x[3], name))


def bad_fill(case, rng):
    ctx = case.ctx
    target = fill_targets(case, rng)
    obj, items, name = target
    specs = [x[1] for x in items]
    data = gen.gen_data(rng, specs, n=rng.choice([2, 4, 8]), objects=False)
    if len(data) < 2:
        return
    arrays = dict(data.arrays)
    fields = sorted(arrays)
    kind = rng.choice(["missing", "length", "strings", "objects", "bomb", "bomb", "dimensions", "mapping", "arraylike", "unhashable", "unsortable"])
    f = rng.choice(fields)
    fuse = None
    n = len(data)
    numeric = [k for k in fields if arrays[k].dtype.kind in "iuf"]
    # fields referred to as they are, by the kind of use
    bare = {}
    for s in specs:
        for a in s.axes:
            bare.setdefault(a["k"], set()).add(a["expr"])
        for p in s.profiles:
            bare.setdefault("profile", set()).add(p)
        if isinstance(s.weight, str):
            bare.setdefault("weight", set()).add(s.weight)
    if kind == "missing":
        del arrays[f]
    elif kind == "length":
        if len(fields) < 2:
            return
        v = arrays[f]
        arrays[f] = v[:-1] if rng.random() < 0.4 else numpy.concatenate([v, v[:1]]) if rng.random() < 0.6 else v[:0]
    elif kind == "dimensions":
        v = arrays[f]
        arrays[f] = rng.choice([lambda: numpy.stack([v, v], 1), lambda: v.reshape(-1, 1), lambda: v.reshape(1, -1), lambda: numpy.stack([v, v, v]), lambda: v.reshape(-1, 1, 1), lambda: numpy.stack([v, v], 1).tolist()])()
        if numpy.array(arrays[f]).ndim < 2:
            return
    elif kind == "strings":
        use = [k for k in fields if any(k in bare.get(u, ()) for u in ("bin", "split", "groupbin", "intbin", "profile", "weight"))]
        if not use:
            return
        f = rng.choice(use)
        arrays[f] = numpy.array(["no", "number"] * n)[:n]
    elif kind == "objects":
        use = [k for k in fields if any(k in bare.get(u, ()) for u in ("bin", "split", "groupbin", "profile", "weight"))]
        if not use:
            return
        f = rng.choice(use)
        arrays[f] = objects([rng.choice([None, {}, object(), "x"]) for _ in range(n)])
    elif kind == "bomb":
        use = [k for k in fields if k in (bare.get("profile", set()) | bare.get("weight", set())) and not any(k in bare.get(u, ()) for u in ("bin", "split", "groupbin", "intbin", "groupby", "cut"))]
        if not use:
            return
        f = rng.choice(use)
        if any(f in x for s in specs for x in ([a["expr"] for a in s.axes] + [p for p in s.profiles if p != f] + [s.filter or ""] + list(s.defs.values()) + ([s.weight] if isinstance(s.weight, str) and s.weight != f else []))):
            return              # also used inside expressions, which need real numbers
        fuse = Fuse(rng.randrange(0, 7 * n))
        arrays[f] = objects([Bomb(v, fuse) for v in arrays[f].tolist()])
    elif kind == "mapping":
        fuse = Fuse(rng.randrange(0, 2 * len(fields)))
        m = Mapping(arrays)
        m.fuse = fuse
        arrays = m
    elif kind == "arraylike":
        fuse = Fuse(rng.randrange(0, 2))
        arrays[f] = ArrayLike(arrays[f], fuse)
    elif kind in ("unhashable", "unsortable"):
        use = [k for k in fields if k in bare.get("groupby", ())]
        if not use:
            return
        f = rng.choice(use)
        arrays[f] = objects([[i // 2] for i in range(n)]) if kind == "unhashable" else objects([Key(None) for _ in range(n)])
    text = "{0}.fill({1}) with {2} {3}{4}".format(name, data.show(), kind, f, "" if fuse is None else " fuse {0}".format(fuse.n))
    before = case.fingerprints()
    ctx.log(text)
    try:
        obj.fill(arrays)
    except Exception as err:
        ctx.log("  {0}: {1}", type(err).__name__, str(err).replace("\n", " ")[:150])
        if fuse is not None:
            ctx.check(fuse.blown, "{0} raised {1}: {2} although no fault was injected", text, type(err).__name__, err)
        case.unchanged(before, text)
        ctx.seen("fail_" + kind)
        ctx.seen("book_failures" if obj is case.book or name.startswith("book") else "hist_failures")
        if any(a["k"] in ("groupby", "groupbin") for s in specs for a in s.axes):
            ctx.seen("group_failures")
        case.ops.append(kind)
    else:
        ctx.check(fuse is None or not fuse.blown, "{0} swallowed the exception", text)
        ctx.check(fuse is not None, "{0} did not raise an error", text)
        for x in items:
            x[2] = x[2] + data.entries()
        for x in case.items:
            observe.check(ctx, x[0], x[1], model.fill(x[1], x[2]), "{0} after {1}".format(x[3], text))
        ctx.seen("bomb_survived")
        return
    if rng.random() < 0.7:
        # it can be used normally afterwards: the very same data, complete this time
        ctx.log("{0}.fill(the same data)", name)
        ctx.do("{0}.fill".format(name), obj.fill, dict(data.arrays))
        for x in items:
            x[2] = x[2] + data.entries()
        for x in case.items:
            observe.check(ctx, x[0], x[1], model.fill(x[1], x[2]), "{0} after a failed and a good fill of {1}".format(x[3], name))
        ctx.seen("fills_after_failure")


def refusals(case, rng):
    ctx = case.ctx
    x = rng.choice(case.items)
    h, spec, _, name = x
    axes = list(h.axis)
    other = None

    def foreign():
        s, what = mutate.variant(rng, spec)
        o = s.make()
        if rng.random() < 0.6:
            try:
                d = gen.gen_data(rng, s, n=4)
                o.fill(dict(d.arrays))
            except AssertionError:
                pass
        return o, "{0} ({1})".format(s, what)
    op = rng.choice(["add", "iadd", "group", "togroup", "project", "rebin", "rebinby", "select", "drop", "lookup", "scale", "table", "book", "plot"])
    if op == "add":
        o, t = foreign()
        before = c11.fingerprint(o)
        case.failing("refused_add", "{0} + {1}".format(name, t), True, lambda: h + o if rng.random() < 0.5 else o + h)
        case.failing("refused_add", "{0} + 3".format(name), True, lambda: h + 3)
        ctx.check(c11.fingerprint(o) == before, "the other operand changed")
    elif op == "iadd":
        o, t = foreign()
        before = c11.fingerprint(o)
        case.failing("refused_iadd", "{0} += {1}".format(name, t), True, h.__iadd__, o)
        case.failing("refused_iadd", "{0} += None".format(name), True, h.__iadd__, None)
        ctx.check(c11.fingerprint(o) == before, "the other operand changed")
    elif op == "group":
        o, t = foreign()
        case.failing("refused_group", "Hist.group(a={0}, b={1})".format(name, t), True, lambda: histbook.Hist.group(a=h, b=o))
        case.failing("refused_group", "Hist.group(a={0}, b=3)".format(name), True, lambda: histbook.Hist.group(a=h, b=3))
        case.failing("refused_group", "Hist.group()", True, lambda: histbook.Hist.group())
        for a in spec.axes:
            if a["k"] == "groupby" and a["expr"].isidentifier():
                case.failing("refused_group", "Hist.group(by={0!r}, a={1})".format(a["expr"], name), True, lambda: histbook.Hist.group(by=a["expr"], a=h))
    elif op == "togroup":
        g = ctx.do("group", lambda: histbook.Hist.group(a=h))
        fp = c11.fingerprint(g)
        o, t = foreign()
        good = h.copy()
        kw = [("z", o)] if rng.random() < 0.5 else [("a", good), ("b", o), ("c", good)]
        case.failing("refused_togroup", "togroup({0})".format(t), True, lambda: g.togroup(**dict(kw)))
        ctx.check(c11.fingerprint(g) == fp, "a refused togroup changed the group\n from {0}\n to {1}", fp, c11.fingerprint(g))
        if not any(a["k"] == "groupby" for a in spec.axes):
            case.failing("refused_togroup", "{0}.togroup (no groupby)".format(name), True, lambda: h.togroup(a=good))
    elif op == "project":
        case.failing("refused_project", "{0}.project('nosuch')".format(name), True, h.project, "nosuch")
        case.failing("refused_project", "{0}.project(foreign axis)".format(name), True, h.project, histbook.bin("nosuch", 3, 0, 1))
        case.failing("refused_project", "{0}.project(99)".format(name), True, h.project, 99)
        case.failing("refused_project", "{0}.project(axis, 'nosuch')".format(name), True, h.project, axes[0], "nosuch")
        if spec.profiles:
            case.failing("refused_project", "{0}.project(profile)".format(name), True, h.project, h.axis[len(axes) - 1])
    elif op == "rebin":
        for a in axes:
            if type(a).__name__ in ("bin", "split"):
                case.failing("refused_rebin", "{0}.rebin({1}, no such edge)".format(name, a), True, h.rebin, a, [a.low, a.low + 0.0123456])
            elif type(a).__name__ in ("cut", "groupby", "groupbin", "profile"):
                case.failing("refused_rebin", "{0}.rebin({1})".format(name, a), True, h.rebin, a, [0, 1])
        case.failing("refused_rebin", "{0}.rebin('nosuch')".format(name), True, h.rebin, "nosuch", [0, 1])
    elif op == "rebinby":
        for a in axes:
            for bad in (0, -1, 1.5, "2", None):
                case.failing("refused_rebinby", "{0}.rebinby({1}, {2!r})".format(name, a, bad), True, h.rebinby, a, bad)
            if type(a).__name__ in ("cut", "groupby", "profile"):
                case.failing("refused_rebinby", "{0}.rebinby({1}, 2)".format(name, a), True, h.rebinby, a, 2)
        case.failing("refused_rebinby", "{0}.rebinby('nosuch', 2)".format(name), True, h.rebinby, "nosuch", 2)
    elif op == "select":
        case.failing("refused_select", "{0}.select('nosuch > 1')".format(name), True, h.select, "nosuch > 1")
        case.failing("refused_select", "{0}.select('1 +')".format(name), True, h.select, "1 +")
        for a in axes:
            if type(a).__name__ in ("bin", "split", "groupbin") and a.expr.isidentifier():
                case.failing("refused_select", "{0}.select({1} at no edge)".format(name, a), True, h.select, "{0} < 0.0123456".format(a.expr))
                case.failing("refused_select", "{0}.select({1} good and bad)".format(name, a), True, h.select, "{0} < 0.0123456 and nosuch > 1".format(a.expr))
        s = c11.selection(rng, h)
        if s is not None:
            case.failing("refused_select", "{0}.select({1!r} and nosuch)".format(name, s), True, h.select, "({0}) and nosuch > 1".format(s))
            case.failing("refused_select", "{0}.select({1!r})".format(name, s), False, h.select, s)
    elif op == "drop":
        case.failing("refused_drop", "{0}.drop('nosuch')".format(name), True, h.drop, "nosuch")
        case.failing("refused_drop", "{0}.drop()".format(name), True, h.drop)
        case.failing("refused_drop", "{0}.drop(binning axis)".format(name), True, h.drop, axes[0])
    elif op == "lookup":
        case.failing("refused_lookup", "{0}.axis['nosuch']".format(name), True, lambda: h.axis["nosuch"])
        case.failing("refused_lookup", "{0}.axis[99]".format(name), True, lambda: h.axis[99])
        for k in ("groupby", "groupbin", "bin", "intbin", "split", "cut", "profile"):
            case.failing("refused_lookup", "{0}.axis.{1}('nosuch')".format(name, k), True, lambda: getattr(h.axis, k)("nosuch"))
        case.failing("refused_lookup", "{0}.get('nosuch')".format(name), True, h.get, "nosuch")
        case.failing("refused_lookup", "{0}.detach('nosuch')".format(name), True, h.detach, "nosuch")
        case.failing("refused_lookup", "{0}.groupkeys('nosuch')".format(name), True, h.groupkeys, "nosuch")
        case.failing("refused_lookup", "{0}[nosuch]".format(name), True, lambda: h["nosuch"])
    elif op == "scale":
        for bad in ("x", None, [1, 2], 1j, h):
            case.failing("refused_scale", "{0} * {1!r}".format(name, bad), True, lambda: h * bad)
            case.failing("refused_scale", "{0} *= {1!r}".format(name, bad), True, h.__imul__, bad)
    elif op == "table":
        case.failing("refused_table", "{0}.table('nosuch')".format(name), True, h.table, "nosuch")
        case.failing("refused_table", "{0}.table(bogus=1)".format(name), True, lambda: h.table(bogus=1))
        case.failing("refused_table", "{0}.fraction('nosuch')".format(name), True, h.fraction, "nosuch")
        case.failing("refused_table", "{0}.fraction(error=bogus)".format(name), False, lambda: h.fraction(error="bogus"))
    elif op == "plot":
        for k in ("step", "area", "line", "marker", "bar", "overlay", "stack", "beside", "below"):
            case.failing("fail_plot", "{0}.{1}('nosuch')".format(name, k), True, lambda: getattr(h, k)("nosuch").vegalite())
    else:
        b = case.book
        bads = []
        for y in case.inbook:
            s, what = mutate.variant(rng, y[1])
            bads.append((y[3], s, what))
        nm, s, what = rng.choice(bads)
        o = histbook.Book()
        for y in case.inbook:
            o[y[3]] = s.make() if y[3] == nm else y[1].make()
        if rng.random() < 0.7:
            o["zz/new"] = s.make()
        case.failing("refused_book", "book + book with {0} of other specification ({1})".format(nm, what), True, lambda: b + o)
        case.failing("refused_book", "book += book with {0} of other specification ({1})".format(nm, what), True, b.__iadd__, o)
        case.failing("refused_book", "Book.group", True, lambda: histbook.Book.group(a=b, b=o))
        case.failing("refused_book", "book['nosuch']", True, lambda: b["nosuch"])
        case.failing("refused_book", "del book['nosuch/more']", True, b.__delitem__, "nosuch/more")
        leaf = rng.choice(case.inbook)[3]
        case.failing("refused_book", "book[{0!r} + '/x'] = Hist".format(leaf), True, b.__setitem__, leaf + "/x", histbook.Hist(histbook.bin("x", 1, 0, 1)))
        case.failing("refused_book", "book['new'] = 3", True, b.__setitem__, "new", 3)
        case.failing("refused_book", "book *= 'x'", True, b.__imul__, "x")
        case.failing("refused_book", "book + 3", True, lambda: b + 3)
        case.failing("refused_book", "book += 3", True, b.__iadd__, 3)


def run_case(ctx, rng, index):
    case = Case(ctx, rng)
    case.book = histbook.Book()
    case.inbook = []
    for i in range(rng.choice([2, 2, 3, 4])):
        spec = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), profiles=0.6, weight=0.5, filter=0.15, maxgroup=2)
        if spec.filter is not None and spec.weight == 0:
            spec.filter = None      # nothing needs the fields of the filter if all weights are zero
        name = ["n/f", "g", "n/h", "k"][i]
        h = case.new(spec, name)
        if i < 2 or rng.random() < 0.7:
            case.book[name] = h
            case.inbook.append(case.items[-1])
    for step in range(rng.choice([3, 5, 7])):
        r = rng.random()
        if r < 0.25:
            good_fill(case, rng)
        elif r < 0.7:
            bad_fill(case, rng)
        elif r < 0.75 and len(case.items) < 6:
            # a copy that shares the contents until filled: its failures too
            x = rng.choice(case.items)
            c = ctx.do("{0}.copyonfill()".format(x[3]), x[0].copyonfill)
            case.items.append([c, x[1], x[2], x[3] + "'"])
            data = gen.gen_data(rng, x[1], n=3)
            if data.arrays and x[1].fields():
                arrays = dict(data.arrays)
                del arrays[rng.choice(sorted(arrays))]
                if case.failing("copyonfill_failures", "fill of the copy without a field", True, c.fill, arrays):
                    good_fill(case, rng, (c, [case.items[-1]], x[3] + "'"))
        else:
            refusals(case, rng)
    good_fill(case, rng)
    good_fill(case, rng, (case.book, case.inbook, "book"))
    ctx.signature(tuple(case.ops))
