"""C11: histograms are independent of each other and of the data they were made from."""
import copy
import json
import pickle
import sys
import threading

import numpy
import histbook

from hbv import exprs, gen, model, observe

QUICK, THOROUGH = 4200, 140000
RULE = "a case = a pool of histograms and books driven by a random sequence of in-place operations, derivations and reads; after each step every live histogram is compared with its shadow (or: arrays of many types under every function; or: derived histograms changed in separate threads); distinct = sequence of operations, set of functions, order of thread events"
REQUIRED = ["op_fill", "op_iadd", "op_imul", "op_clear", "op_bookclear", "rebin_edges", "rebin_by_1", "rebin_by_more", "op_togroup", "op_attach", "op_copy", "op_copyonfill", "op_cleared", "op_pickle", "op_deepcopy", "op_json", "op_add", "added_to_empty", "op_mul",
            "op_project", "op_drop", "op_select", "op_rebin", "op_group", "op_weight", "op_filter", "op_book", "op_bookcopy", "op_bookcopyonfill", "op_bookfill", "op_bookadd", "op_bookmul",
            "op_bookiadd", "op_bookimul", "op_bookattach", "book_attachments_compared", "op_samples", "op_reads", "op_shareddict", "op_bookgroup", "readonly_arrays", "arrays_overwritten_afterwards", "untouched_compared", "touched_compared", "compared_in_the_end",
            "array_fills", "array_fills_writeable", "array_fills_accepted", "threads_run", "thread_switches_seen", "thread_histograms_compared"]


class Obj(object):
    """A live histogram and its shadow: the entries it must hold (None where only its constancy is watched)."""
    count = 0

    def __init__(self, h, spec, entries, attach, origin):
        Obj.count += 1
        self.name = "h{0}".format(Obj.count)
        self.h, self.spec, self.entries, self.attach, self.origin = h, spec, entries, dict(attach), origin
        self.fp = None


def fingerprint(h):
    group = observe.axes(h)[0]
    return repr((sorted(observe.content(h).items(), key=repr), [repr(x) for x in h.axis], h.shape, sorted(h.attachment.items(), key=repr), h.fields, repr(h),
                 [sorted(repr(observe.keyof(x, k)) for k in h.groupkeys(x)) for x in group]))


class Pool(object):
    def __init__(self, ctx):
        self.ctx, self.objs, self.books = ctx, [], []
        self.quiet = False      # whether to look at the histograms in the end only (looking at one that hasn't been filled gives it bins)
        self.battach = {}       # id -> (book, shadow of its attachment), nested books too

    def allbooks(self):
        out = []
        def recurse(b):
            if not any(b is x for x in out):
                out.append(b)
            for n in b.keys():
                if not isinstance(b[n], histbook.Hist):
                    recurse(b[n])
        for b in self.books:
            recurse(b)
        return out

    def watchbooks(self, step):
        for b in self.allbooks():
            if id(b) not in self.battach:
                self.battach[id(b)] = (b, dict(b.attachment))
            want = self.battach[id(b)][1]
            self.ctx.check(dict(b.attachment) == want, "{0} changed the attachment of a book from {1} to {2}", step, want, b.attachment)
            self.ctx.seen("book_attachments_compared")

    def add(self, h, spec, entries, attach, origin):
        for o in self.objs:
            self.ctx.check(o.h is not h, "{0} returned the histogram {1} itself", origin, o.name)
        o = Obj(h, spec, entries, attach, origin)
        self.objs.append(o)
        self.settle(o)
        return o

    def settle(self, o):
        """The histogram was created or changed: compare it with the shadow and remember its state."""
        if self.quiet:
            return
        what = "{0} ({1})".format(o.name, o.origin)
        if o.entries is not None:
            observe.check(self.ctx, o.h, o.spec, model.fill(o.spec, o.entries), what)
            self.ctx.seen("touched_compared")
        self.ctx.check(dict(o.h.attachment) == o.attach, "{0} has attachment {1}, expected {2}", what, o.h.attachment, o.attach)
        o.fp = fingerprint(o.h)

    def watch(self, step, touched=()):
        if self.quiet:
            return
        self.watchbooks(step)
        for o in self.objs:
            if o in touched:
                self.settle(o)
            else:
                fp = fingerprint(o.h)
                self.ctx.seen("untouched_compared")
                self.ctx.check(fp == o.fp, "{0} changed {1} ({2})\n  from {3}\n  to   {4}", step, o.name, o.origin, o.fp, fp)

    def final(self):
        self.quiet = False
        for o in self.objs:
            self.settle(o)
        self.watchbooks("nothing")
        for o in self.objs:
            self.ctx.check(fingerprint(o.h) == o.fp, "looking at the others changed {0}", o.name)
            self.ctx.seen("compared_in_the_end")

    def of(self, h):
        return [o for o in self.objs if o.h is h]


def counted(spec, entries):
    return [(r, f) for r, f in entries if model.locate(spec, r) is not None]


def fill(ctx, rng, pool, o, target, specs, name):
    """Fill o.h or a book with hostile ownership of the arrays."""
    data = gen.gen_data(rng, specs, n=rng.choice([0, 6, 20]))
    arrays = dict(data.arrays)
    strided = rng.random() < 0.3
    if strided:
        for k in arrays:
            big = numpy.empty(2 * len(arrays[k]) + 1, dtype=arrays[k].dtype)
            if arrays[k].dtype.kind in "US":
                big[:] = "zz"
            elif arrays[k].dtype.kind == "O":
                big[:] = "zz"
            else:
                big[:] = 0
            big[:2 * len(arrays[k]):2] = arrays[k]
            arrays[k] = big[:2 * len(arrays[k]):2]
    before = dict((k, pickle.dumps(v.tolist())) for k, v in arrays.items())
    if rng.random() < 0.6:
        for v in arrays.values():
            v.flags.writeable = False
        ctx.seen("readonly_arrays")
    ctx.log("{0}.fill({1})", name, data.show())
    ctx.do("{0}.fill".format(name), target.fill, arrays)
    for k, v in arrays.items():
        ctx.check(pickle.dumps(v.tolist()) == before[k], "{0}.fill changed the caller's array {1}", name, k)
    if rng.random() < 0.5:
        for v in arrays.values():
            if v.flags.writeable or v.base is None:
                v.flags.writeable = True
                v[:] = v[::-1].copy() if rng.random() < 0.5 else (numpy.zeros(1, v.dtype)[0] if v.dtype.kind not in "USO" else "q")
        ctx.seen("arrays_overwritten_afterwards")
    return data


def reads(ctx, rng, h):
    group, fixed, prof = observe.axes(h)
    r = rng.randrange(12)
    if r == 0:
        h.table(*prof, count=True, effcount=True, error=True)
    elif r == 1:
        h.table(recarray=False, normalized=len(fixed) > 0)
    elif r == 2:
        h == h, h != h.copy(), h.compatible(h)
    elif r == 3:
        repr(h), str(h), pickle.dumps(h), json.dumps(h.tojson())
    elif r == 4:
        for x in fixed:
            x.keys(), hash(x)
        h.fields, h.shape, h.columns() if hasattr(h, "columns") else None
    elif r == 5:
        for x in group:
            h.groupkeys(x)
    elif r == 6:
        # whoever owns the table may write in it
        def scribble(node):
            if isinstance(node, dict):
                for x in node.values():
                    scribble(x)
                node.clear()
            else:
                node[...] = -7
        scribble(h.table(*prof, count=True, effcount=rng.random() < 0.5, error=rng.random() < 0.5, recarray=False))
    elif r == 7:
        cuts = [x for x in fixed if isinstance(x, histbook.axis.cut)]
        if cuts and len(group) + len(fixed) > len(cuts):
            h.fraction(*cuts)
    elif r == 8:
        if fixed or group:
            ax = rng.choice(list(group) + list(fixed))
            plot = rng.choice([h.bar, h.step, h.area, h.line, h.marker])(ax)
            json.dumps(plot.vegalite())
    elif r == 9:
        [repr(x) for x in h.axis], len(list(h.axis))
    elif r == 10:
        if fixed and not group:
            h[(0,) * (len(fixed))] if rng.random() < 0.5 else h[0]
    elif r == 11:
        j = h.tojson()
        j.get("attachment", {})["scribbled"] = 1
        j.get("defs", {})["scribbled"] = "x"
        for k in list(j):
            if isinstance(j[k], list):
                j[k][:] = []


BARE = ["gamma", "lgamma", "factorial", "erf", "erfc", "abs", "sqrt", "exp", "floor", "ceil", "round", "rint", "trunc", "sign", "log1p", "expm1", "sin", "isnan", "degrees", "radians"]


def arrays_case(ctx, rng):
    """The caller's arrays, of many types, stay as they are whatever is computed from them, also when the fill is refused."""
    isbool, isnum = ["p"], []
    for k in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.45:
            text = "{0}({1})".format(rng.choice(BARE), rng.choice(["a", "b", "i", "x"]))
            (isbool if text.startswith("isnan") else isnum).append(text)
        elif r < 0.75:
            text, b = rng.choice(exprs.SPELLINGS)
            (isbool if b else isnum).append(text)
        elif r < 0.9:
            isnum.append(exprs.num(rng, 2))
        else:
            isnum.append(rng.choice(["a", "i", "x", "a*a", "a + b", "-a", "x*x", "x + x", "i*i", "x**2", "1/x"]))
    axes, opts = [], {}
    for text in isnum:
        where = rng.choice(["bin", "split", "intbin", "groupbin", "groupby", "profile", "weight"])
        ctx.log("{0} of {1!r}", where, text)
        if where == "weight":
            opts["weight"] = text
        else:
            axes.append({"bin": lambda: histbook.bin(text, 4, -2, 2), "split": lambda: histbook.split(text, (-1, 0.5, 2)), "intbin": lambda: histbook.intbin(text, 0, 5), "groupbin": lambda: histbook.groupbin(text, 2),
                         "groupby": lambda: histbook.groupby(text), "profile": lambda: histbook.profile(text)}[where])
    for text in isbool[1:] if isnum else isbool:
        axes.append(lambda: histbook.cut(text))
    if rng.random() < 0.2:
        opts["filter"] = "p"
    try:
        h = histbook.Hist(*[a() for a in axes], **opts)
    except Exception as err:
        ctx.log("not constructed: {0}", err)
        return
    target = h if rng.random() < 0.6 else histbook.Book({"one": h, "two": histbook.Hist(histbook.bin("a", 3, 0, 3), histbook.profile("x")), "three": h.copy()})
    n = rng.choice([1, 5, 30, 300])
    arrays = {}
    for f in ("a", "b", "c", "i", "j", "x", "p"):
        t = rng.choice(["float64"] * 4 + ["float32", "int64", "int32", ">f8", "uint8"]) if f in "abcx" else "bool" if f == "p" else rng.choice(["int64", "int64", "int32", "float64"])
        vals = [rng.choice([0, 1, 2, 3, 4, 5]) if "u" in t or f == "p" else rng.choice([-2, -1, 0, 1, 2, 3, 4.5, 0.25, -0.75]) if "f" in t and f not in "ij" else rng.randrange(0, 6) for _ in range(n)]
        arrays[f] = numpy.array(vals, dtype=t)
        if "f" in t and rng.random() < 0.3:
            arrays[f][rng.randrange(n)] = rng.choice([numpy.nan, numpy.inf, -numpy.inf])
        if rng.random() < 0.1:
            arrays[f] = arrays[f][::-1]
        if rng.random() < 0.2:
            arrays[f].flags.writeable = False
    given = dict(arrays)
    before = dict((f, (v.tobytes(), v.dtype, v.shape, v.strides)) for f, v in arrays.items())
    ctx.log("fill({0})", ", ".join("{0}={1}:{2}".format(f, v.dtype.str, v[:30].tolist()) for f, v in sorted(arrays.items())))
    for _ in range(rng.choice([1, 1, 2])):
        try:
            target.fill(arrays)
            ctx.seen("array_fills_accepted")
        except Exception as err:
            ctx.log("  refused: {0}: {1}", type(err).__name__, err)
        ctx.seen("array_fills")
        ctx.seen("array_fills_writeable", sum(v.flags.writeable for v in given.values()))
        ctx.check(sorted(arrays) == sorted(given) and all(arrays[f] is given[f] for f in given), "fill changed the caller's dict of arrays")
        for f, v in given.items():
            ctx.check((v.tobytes(), v.dtype, v.shape, v.strides) == before[f], "fill changed the caller's array {0} to {1}", f, v[:30].tolist())
    ctx.signature("arrays", tuple(isnum), tuple(isbool))


def threads_case(ctx, rng):
    """Histograms derived from one another, each changed in a thread of its own."""
    spec = gen.gen_spec(rng, naxes=rng.choice([1, 2]), weight=0.4, filter=0.15, profiles=0.4, maxgroup=1)
    ctx.log("{0}", spec)
    h = ctx.do("construct", spec.make)
    data = gen.gen_data(rng, spec, n=12)
    ctx.log("first fill: {0}", data.show())
    ctx.do("fill", h.fill, dict(data.arrays))
    entries = data.entries()
    # the live histograms: [histogram or book to be changed, members, entries]
    live = [[h, [h], entries, "source"]]
    warm = rng.random() < 0.3
    for k in range(rng.choice([1, 2, 3])):
        how = rng.choice(["copy", "copyonfill", "copyonfill", "cleared", "pickle", "deepcopy", "mul", "add", "book", "bookcopyonfill", "new"])
        src, members, ents, _ = rng.choice([x for x in live if isinstance(x[0], histbook.Hist)])
        if how in ("book", "bookcopyonfill"):
            x = ctx.do(how, lambda: histbook.Book({"one": src, "two": src.copy()}))
            x = x.copy() if how == "book" else x.copyonfill()
            live.append([x, [x["one"], x["two"]], list(ents), how])
        else:
            f = {"copy": lambda: src.copy(), "copyonfill": lambda: src.copyonfill(), "cleared": lambda: src.cleared(), "pickle": lambda: pickle.loads(pickle.dumps(src)), "deepcopy": lambda: copy.deepcopy(src),
                 "mul": lambda: src * 2, "add": lambda: src + src, "new": spec.make}[how]
            x = ctx.do(how, f)
            live.append([x, [x], {"cleared": lambda: [], "new": lambda: [], "mul": lambda: [(r, 2*g) for r, g in ents], "add": lambda: list(ents) + list(ents)}.get(how, lambda: list(ents))(), how])
    plans = []
    for x in live:
        plan = []
        for k in range(rng.choice([2, 4])):
            op = rng.choice(["fill", "fill", "fill", "fill", "imul", "clear", "read"])
            d = gen.gen_data(rng, spec, n=rng.choice([5, 20])) if op == "fill" else None
            if d is not None and rng.random() < 0.3:
                d = d.inflate(rng, 300)
            plan.append((op, d))
            x[2] = x[2] + d.entries() if op == "fill" else [(r, 2*g) for r, g in x[2]] if op == "imul" else [] if op == "clear" else x[2]
        plans.append(plan)
        ctx.log("{0}: {1}", x[3], ", ".join("fill({0})".format(d.show()) if op == "fill" else op for op, d in plan))
    barrier = threading.Barrier(len(live))
    order, errors = [], []

    def work(k):
        target, members = live[k][0], live[k][1]
        try:
            barrier.wait(60)
            for op, d in plans[k]:
                order.append(k)
                if op == "fill":
                    target.fill(dict(d.arrays))
                elif op == "imul":
                    target *= 2
                elif op == "clear":
                    target.clear()
                else:
                    for m in members:
                        m.table(), m.fields, repr(m)
                order.append(k)
        except Exception as err:
            errors.append((live[k][3], err))

    if warm:
        for x in live:
            x[0].fields
    threads = [threading.Thread(target=work, args=(k,)) for k in range(len(live))]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    ctx.log("order of the beginnings and ends of the operations: {0}", order)
    ctx.check(not errors, "operations on separate histograms in separate threads raised {0}", errors)
    ctx.seen("threads_run", len(threads))
    ctx.seen("thread_switches_seen", sum(x != y for x, y in zip(order, order[1:])))
    for target, members, ents, what in live:
        for m in members:
            observe.check(ctx, m, spec, model.fill(spec, ents), "{0} after changes in threads".format(what))
            ctx.seen("thread_histograms_compared")
    ctx.signature("threads", tuple(order))


def run_case(ctx, rng, index):
    Obj.count = 0
    r = rng.random()
    if r < 0.12:
        return arrays_case(ctx, rng)
    elif r < 0.18:
        return threads_case(ctx, rng)
    pool = Pool(ctx)
    pool.quiet = rng.random() < 0.3
    base = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), weight=0.35, filter=0.1, profiles=0.35, maxgroup=2)
    # the same binning with different weights is still addable; used for some operands
    specs = [base]
    seq = []

    def new(spec):
        att = {"meta": rng.randrange(5)} if rng.random() < 0.3 else {}
        spec = spec.replace(attachment=att)
        ctx.log("{0}", spec)
        return pool.add(ctx.do("construct", spec.make), spec, [], att, "new")

    new(base)
    bookish = rng.random() < 0.4
    hot = pool.objs
    for step in range(rng.choice([6, 10, 16])):
        if step > 1 and hot and rng.random() < 0.5:
            # mutate what has just been derived, or what it was derived from
            o = rng.choice(hot)
            forced = rng.choice(["fill", "fill", "iadd", "imul", "imul", "clear", "attach", "fill"])
            if o.origin.startswith("group of") and rng.random() < 0.5:
                forced = "togroup"
        else:
            o = rng.choice(pool.objs)
            forced = "fill" if step == 0 or (step == 1 and rng.random() < 0.7) else None
        before = len(pool.objs)
        h, spec = o.h, o.spec
        grows = len(pool.objs) < (14 if bookish else 9)
        op = rng.choice(["fill", "fill", "fill", "iadd", "imul", "clear", "togroup", "togroup", "attach", "reads", "reads", "reads", "bookfill", "bookfill", "bookimul", "bookiadd", "bookattach", "bookclear"] +
                        (["copy", "copyonfill", "copyonfill", "cleared", "pickle", "deepcopy", "json", "add", "mul", "project", "drop", "select", "rebin", "group", "weight", "filter",
                          "book", "book", "bookcopy", "bookcopyonfill", "bookadd", "bookmul", "samples", "shareddict", "bookgroup"] if grows else []))
        if forced is not None and spec is not None:
            op = forced
        if bookish and step > 0 and rng.random() < 0.65:
            op = rng.choice(["bookfill", "bookimul", "bookiadd", "bookattach", "bookattach", "bookclear"] + (["book", "bookcopy", "bookcopy", "bookcopy", "bookcopyonfill", "bookadd", "bookmul", "bookgroup", "samples"] if grows else []))
        touched, partner = [], None
        label = "{0} of {1}".format(op, o.name)
        ctx.log("-- {0}", label)
        books = pool.books
        if op.startswith("book") and op != "book" and not books:
            op = rng.choice(["book", "select", "rebin", "group", "project", "drop", "copyonfill"]) if grows else "reads"
        if op == "togroup" and grows and not any(x.origin.startswith("group") for x in pool.objs):
            op = "group"
        if op == "fill":
            data = fill(ctx, rng, pool, o, h, [o.spec], o.name)
            if o.entries is not None:
                o.entries = o.entries + data.entries()
            touched = [o]
        elif op == "iadd":
            other = rng.choice([x for x in pool.objs if same(o, x)] or pool.objs) if rng.random() < 0.6 else rng.choice(pool.objs)
            if grows and rng.random() < 0.25 and o.spec is not None:
                # into an empty one
                other, o = o, pool.add(ctx.do("{0}.cleared()".format(o.name), h.cleared), spec, [] if o.entries is not None else None, o.attach, "cleared for +=")
                h = o.h
                ctx.seen("added_to_empty")
            if o.spec is None or other.spec is None or not same(o, other):
                continue
            old = h
            def iadd():
                x = h
                x += other.h
                return x
            got = ctx.do("{0} += {1}".format(o.name, other.name), iadd)
            ctx.check(got is old, "+= returned another histogram")
            o.entries = merged(o, other)
            touched = [o]
            partner = other
        elif op == "imul":
            f = rng.choice([2, 0.5, 3, 0, -1, numpy.float64(2), numpy.int64(3)])
            def imul():
                x = h
                x *= f
                return x
            got = ctx.do("{0} *= {1}".format(o.name, f), imul)
            ctx.check(got is h, "*= returned another histogram")
            if o.entries is not None:
                o.entries = [(r, g * float(f)) for r, g in o.entries]
            touched = [o]
        elif op == "clear":
            ctx.do("{0}.clear()".format(o.name), h.clear)
            o.entries = [] if o.entries is not None else None
            touched = [o]
        elif op == "togroup":
            cands = [x for x in pool.objs if x.origin.startswith("group")]
            if not cands:
                continue
            o = o if o in cands else rng.choice(cands)
            src = rng.choice([x for x in pool.objs if x.name in o.origin.split()] or [None])
            if src is None:
                continue
            key = rng.choice(["one", "two", "new"])
            try:
                ctx.may("{0}.togroup({1}={2})".format(o.name, key, src.name), (TypeError, ValueError), o.h.togroup, **{key: src.h})
                touched = [o]
            except Exception as err:
                if type(err).__name__ != "Refused":
                    raise
        elif op == "attach":
            key, value = rng.choice(["meta", "fit", "x"]), rng.randrange(100)
            if rng.random() < 0.3 and o.attach:
                key = sorted(o.attach)[0]
                ctx.do("{0}.detach({1})".format(o.name, key), h.detach, key)
                del o.attach[key]
            else:
                ctx.do("{0}.attach({1}, {2})".format(o.name, key, value), h.attach, key, value)
                o.attach[key] = value
            touched = [o]
        elif op in ("copy", "copyonfill", "cleared", "pickle", "deepcopy", "json"):
            fcn = {"copy": lambda: h.copy(), "copyonfill": lambda: h.copyonfill(), "cleared": lambda: h.cleared(),
                   "pickle": lambda: pickle.loads(pickle.dumps(h, rng.choice([0, 1, 2, pickle.HIGHEST_PROTOCOL]))), "deepcopy": lambda: rng.choice([copy.deepcopy, copy.copy, lambda h: copy.deepcopy([h, h.copyonfill()])[rng.randrange(2)]])(h),
                   "json": lambda: histbook.Hist.fromjson(json.loads(json.dumps(h.tojson())))}[op]
            x = ctx.do(label, fcn)
            if op != "cleared" and (not pool.quiet or rng.random() < 0.2):
                ctx.check(x == h, "{0} is not equal to its source", label)
            e = o.entries
            if op == "cleared" and e is not None:
                e = []
            n = pool.add(x, spec, e, o.attach, label)
            if op != "cleared" and not pool.quiet:
                ctx.check(n.fp == o.fp, "{0} differs from its source\n  {1}\n  {2}", label, n.fp, o.fp)
        elif op == "add":
            other = rng.choice([x for x in pool.objs if same(o, x)] or pool.objs)
            if rng.random() < 0.4:
                other = pool.add(ctx.do("{0}.cleared()".format(o.name), h.cleared), spec, [] if o.entries is not None else None, o.attach, "cleared for +")
                if rng.random() < 0.5:
                    other, o = o, other
                    h = o.h
                ctx.seen("added_to_empty")
            if not same(o, other):
                continue
            x = ctx.do("{0} + {1}".format(o.name, other.name), lambda: h + other.h)
            pool.add(x, spec, merged(o, other), dict(x.attachment), label)
            partner = other
        elif op == "mul":
            f = rng.choice([1, 2, 0.5, -1, 0])
            x = ctx.do("{0} * {1}".format(o.name, f), (lambda: h * f) if rng.random() < 0.5 else (lambda: f * h))
            pool.add(x, spec, None if o.entries is None else [(r, g * f) for r, g in o.entries], o.attach, label)
        elif op == "project":
            group, fixed, prof = observe.axes(h)
            allaxes = list(group) + list(fixed)
            if any(type(x).__name__.startswith("_") for x in allaxes) or len(allaxes) == 0:
                continue
            keep = rng.sample(allaxes, rng.randrange(1, len(allaxes) + 1))
            x = ctx.do("{0}.project({1})".format(o.name, keep), h.project, *keep)
            if o.entries is None or len(spec.ordered) != len(allaxes):
                nspec, ents = derived(x, spec), None
            else:
                keptspec = [a for a, ax in zip(spec.ordered, allaxes) if any(ax is k for k in keep)]
                nspec, ents = spec.replace(axes=keptspec), counted(spec, o.entries)
            pool.add(x, nspec, ents, o.attach, label)
        elif op == "drop":
            group, fixed, prof = observe.axes(h)
            if not prof:
                continue
            i = rng.randrange(len(prof))
            x = ctx.do("{0}.drop({1})".format(o.name, prof[i]), h.drop, prof[i])
            nspec = spec.replace(profiles=[p for j, p in enumerate(spec.profiles) if j != i])
            pool.add(x, nspec, o.entries, o.attach, label)
        elif op == "select":
            s = selection(rng, h)
            if s is None:
                continue
            try:
                x = ctx.may("{0}.select({1!r})".format(o.name, s), (ValueError, TypeError, IndexError), h.select, s)
                pool.add(x, derived(x, spec), None, o.attach, label)
            except Exception as err:
                if type(err).__name__ != "Refused":
                    raise
        elif op == "rebin":
            cands = [x for x in observe.axes(h)[1] if isinstance(x, (histbook.bin, histbook.split, histbook.intbin))] + [x for x in observe.axes(h)[0] if isinstance(x, histbook.groupbin)]
            cands = [x for x in cands if not isinstance(x, histbook.bin) or x.numbins > 0]
            if not cands:
                continue
            ax = rng.choice(cands)
            ks = [k for k in ax.keys() if isinstance(k, histbook.axis.Interval) and abs(k.low) < 1e300 and abs(k.high) < 1e300] if isinstance(ax, (histbook.bin, histbook.split)) else []
            if ks and rng.random() < 0.4:
                edges = [ks[0].low] + (rng.sample([k.low for k in ks[1:]], rng.randrange(len(ks))) if rng.random() < 0.5 else [k.low for k in ks[1:]]) + [ks[-1].high]
                x = ctx.do("{0}.rebin({1}, {2})".format(o.name, ax, edges), h.rebin, ax, edges)
                ctx.seen("rebin_edges")
            else:
                factor = rng.choice([1, 1, 2, 3, 100])
                x = ctx.do("{0}.rebinby({1}, {2})".format(o.name, ax, factor), h.rebinby, ax, factor)
                ctx.seen("rebin_by_1" if factor == 1 else "rebin_by_more")
            pool.add(x, derived(x, spec), None, o.attach, label)
        elif op == "group":
            others = [x for x in pool.objs if same(o, x)]
            two = rng.choice(others) if others else o
            if any(a["expr"] == "source" for a in spec.axes):
                continue
            x = ctx.do("group({0}, {1})".format(o.name, two.name), histbook.Hist.group, by="source", one=o.h, two=two.h)
            g = model.axis("groupby", "source")
            nspec = model.Spec([g] + spec.ordered, spec.profiles, None, None, spec.defs)
            ents = None
            n = pool.add(x, nspec, ents, dict(x.attachment), "group of {0} and {1}".format(o.name, two.name))
            n.spec = derived(x, spec)
        elif op in ("weight", "filter"):
            e = rng.choice(["w", "2*a", "w*a"] if op == "weight" else ["a > 0", "p and q"])
            x = ctx.do("{0}.{1}({2!r})".format(o.name, op, e), getattr(h, op), e)
            pool.add(x, spec.replace(**{op: e}), [], o.attach, label)
        elif op == "shareddict":
            att, defs = {"meta": 1}, {"dd": "a + 1"}
            two = []
            for k in range(2):
                opts = {"attachment": att, "defs": defs}
                if k == 1 or rng.random() < 0.5:
                    opts["systematic"] = [k]
                x = ctx.do("Hist(..., attachment=shared, defs=shared)", histbook.Hist, *([model.make_axis(a) for a in base.axes]), **opts)
                two.append(pool.add(x, base.replace(profiles=[], weight=None, filter=None, defs=dict(defs)), [], dict({"meta": 1}, **({"systematic": [k]} if "systematic" in opts else {})), label))
            ctx.check(att == {"meta": 1} and defs == {"dd": "a + 1"}, "constructing a histogram changed the caller's dicts: {0} {1}", att, defs)
            att["meta"] = 2
            defs["dd"] = "b"
        elif op == "book":
            # a book refers to the histograms that are put into it (live), also in nested books
            members = rng.sample(pool.objs, min(len(pool.objs), rng.choice([1, 2, 3])))
            b = histbook.Book()
            for k, m in enumerate(members):
                b["n{0}".format(k) if k % 2 == 0 else "nest/n{0}".format(k)] = m.h
            for m in members:
                ctx.check(any(x is m.h for x in b.allvalues(onlyhist=True)), "a book holds a copy of the histogram that was put into it")
            if rng.random() < 0.5:
                b.attach("meta", rng.randrange(5))
                if "nest" in b:
                    b["nest"].attach("fit", 1)
            books.append(b)
        elif op == "bookfill":
            b = rng.choice(books)
            members = [pool.of(x)[0] for x in b.allvalues(onlyhist=True)]
            if any(m.spec is None for m in members):
                continue
            data = fill(ctx, rng, pool, None, b, [m.spec for m in members], "book")
            for m in members:
                if m.entries is not None:
                    m.entries = m.entries + data.entries()
            touched = members
        elif op == "bookclear":
            b = rng.choice(books)
            had = [(n, x) for n, x in b.allitems()]
            ctx.do("book.clear()", b.clear)
            has = [(n, x) for n, x in b.allitems()]
            ctx.check([n for n, _ in had] == [n for n, _ in has] and all(x is y for (_, x), (_, y) in zip(had, has)), "clear() changed the names or members of a book: {0}", has)
            touched = [pool.of(x)[0] for x in b.allvalues(onlyhist=True)]
            for m in touched:
                ctx.check(pool.quiet or not any(v[0] for v in observe.content(m.h).values()), "a histogram isn't empty after clear() of its book: {0}", m.name)
                if m.entries is not None:
                    m.entries = []
        elif op == "bookattach":
            pool.watchbooks("nothing")
            b = rng.choice(pool.allbooks())
            key, value = rng.choice(["meta", "fit", "x"]), rng.randrange(100)
            shadow = pool.battach[id(b)][1]
            if shadow and rng.random() < 0.3:
                key = sorted(shadow)[0]
                ctx.do("book.detach({0})".format(key), b.detach, key)
                del shadow[key]
            else:
                ctx.do("book.attach({0}, {1})".format(key, value), b.attach, key, value)
                shadow[key] = value
        elif op in ("bookcopy", "bookcopyonfill"):
            b = rng.choice(books)
            how = rng.choice(["copy", "cleared", "pickle", "json"]) if op == "bookcopy" else "copyonfill"
            if how == "json":
                c = ctx.do("book json", lambda: histbook.Book.fromjson(json.loads(json.dumps(b.tojson()))))
            elif how == "pickle":
                c = ctx.do("book pickle", lambda: pickle.loads(pickle.dumps(b)))
            else:
                c = ctx.do("book.{0}()".format(how), getattr(b, how))
            adopt(ctx, pool, b, c, how, lambda m: (m.spec, [] if how == "cleared" and m.entries is not None else m.entries))
        elif op == "bookmul":
            b = rng.choice(books)
            f = rng.choice([2, 0.5])
            c = ctx.do("book * {0}".format(f), (lambda: b * f) if rng.random() < 0.5 else (lambda: f * b))
            adopt(ctx, pool, b, c, "*", lambda m: (m.spec, None if m.entries is None else [(r, g * f) for r, g in m.entries]))
        elif op == "bookimul":
            b = rng.choice(books)
            f = rng.choice([2, 0.5])
            def bimul():
                x = b
                x *= f
                return x
            ctx.check(ctx.do("book *= {0}".format(f), bimul) is b, "book *= returned another book")
            touched = [pool.of(x)[0] for x in b.allvalues(onlyhist=True)]
            for m in touched:
                if m.entries is not None:
                    m.entries = [(r, g * f) for r, g in m.entries]
        elif op in ("bookadd", "bookiadd"):
            b = rng.choice(books)
            c = ctx.do("book.copy()", b.copy)
            adopt(ctx, pool, b, c, "copy", lambda m: (m.spec, m.entries))
            if rng.random() < 0.3 and grows and "extra" not in c:
                extra = pool.add(pool.objs[0].h.copy(), pool.objs[0].spec, pool.objs[0].entries, pool.objs[0].attach, "extra")
                c["extra"] = extra.h
            if op == "bookadd":
                s = ctx.do("book + book", lambda: b + c)
                pairs = dict(b.allitems(onlyhist=True))
                second = dict(c.allitems(onlyhist=True))
                for n, x in s.allitems(onlyhist=True):
                    m = [pool.of(y[n])[0] for y in (pairs, second) if n in y]
                    ents = m[0].entries if len(m) == 1 else merged(m[0], m[1])
                    pool.add(x, m[0].spec, ents, dict(x.attachment), "book + book")
                books.append(s)
            else:
                def biadd():
                    x = b
                    x += c
                    return x
                names = dict((n, pool.of(x)[0]) for n, x in b.allitems(onlyhist=True))
                second = dict((n, pool.of(x)[0]) for n, x in c.allitems(onlyhist=True))
                ctx.check(ctx.do("book += book", biadd) is b, "book += returned another book")
                for n, x in b.allitems(onlyhist=True):
                    if n in names:
                        ctx.check(x is names[n].h, "+= replaced a member of the book")
                        names[n].entries = merged(names[n], second[n])
                        touched.append(names[n])
                    else:
                        pool.add(x, second[n].spec, second[n].entries, second[n].attach, "book += (new name)")
        elif op == "bookgroup":
            b = rng.choice(books)
            if any(a["expr"] == "source" for x in b.allvalues(onlyhist=True) for a in [model.spec_of(y) for y in x.axis if type(y).__name__ != "_nullaxis"]):
                continue
            s = ctx.do("Book.group", histbook.Book.group, by="source", one=b, two=b)
            for n, x in s.allitems(onlyhist=True):
                m = pool.of(b[n])[0]
                pool.add(x, derived(x, m.spec), None, dict(x.attachment), "group of book")
            books.append(s)
        elif op == "samples":
            m = rng.sample(pool.objs, min(2, len(pool.objs)))
            s = ctx.do("SamplesBook", histbook.SamplesBook, ["x", "y"], dict(("k%d" % k, x.h) for k, x in enumerate(m)))
            for sample in ("x", "y"):
                for k, src in enumerate(m):
                    pool.add(s[sample]["k%d" % k], src.spec, src.entries, src.attach, "sample of " + src.name)
                books.append(s[sample])
        elif op == "reads":
            ctx.log("reads {0}", o.name)
            ctx.do("reading", reads, ctx, rng, h)
        ctx.seen("op_" + op)
        seq.append(op)
        if len(pool.objs) > before:
            hot = [o] + pool.objs[before:] + ([partner] if partner is not None else [])
            if op == "group":
                hot = hot + [hot[-1]] * 3
        pool.watch(label, touched)
        if len(pool.books) > 6:
            pool.books.pop(rng.randrange(len(pool.books)))
    if pool.quiet:
        pool.final()
    ctx.signature(pool.quiet, tuple(seq))


def adopt(ctx, pool, source, book, how, shadow):
    ctx.check(book is not source and type(book) is type(source), "{0} of a book is {1}", how, book)
    ctx.check(dict(book.attachment) == dict(source.attachment), "{0} of a book has the attachment {1}, not {2}", how, book.attachment, source.attachment)
    one, two = source.allitems(), book.allitems()
    ctx.check([n for n, x in one] == [n for n, x in two], "{0} of a book has {1}, not {2}", how, two, one)
    for (n, x), (_, y) in zip(one, two):
        ctx.check(type(x) is type(y) and x is not y, "{0} of a book shares {1}", how, n)
        if not isinstance(x, histbook.Hist):
            ctx.check(dict(x.attachment) == dict(y.attachment), "{0} of a book gives {1} the attachment {2}, not {3}", how, n, y.attachment, x.attachment)
        if isinstance(x, histbook.Hist):
            m = pool.of(x)[0]
            spec, ents = shadow(m)
            new = pool.add(y, spec, ents, m.attach, "{0} of book with {1}".format(how, m.name))
            if how in ("copy", "copyonfill", "pickle", "json") and not pool.quiet:
                ctx.check(new.fp == m.fp, "{0} of book differs from its source\n  {1}\n  {2}", how, new.fp, m.fp)
    pool.books.append(book)


def same(o, other):
    """Whether the histograms can be added: same axes and same kind of weighting."""
    if o.spec is None or other.spec is None:
        return False
    if dict(o.spec.defs or {}) != dict(other.spec.defs or {}):
        return False        # the same names may mean different things
    return list(o.h.axis) == list(other.h.axis) and o.h.shape == other.h.shape


def merged(o, other):
    if o.entries is None or other.entries is None:
        return None
    if str(o.spec) != str(other.spec):
        return None
    return o.entries + other.entries


def derived(h, spec):
    """Specification of a derived histogram from its public properties."""
    group, fixed, prof = observe.axes(h)
    try:
        axes = [model.spec_of(x) for x in group + fixed]
    except AssertionError:
        return None
    text = repr(h)
    weight = spec.weight if "weight=" in text else None
    if weight is None and "weight=" in text:
        weight = 1.0
    return model.Spec(axes, spec.profiles, weight if "weight=1.0" not in text else 1.0, spec.filter if "filter=" in text else None, spec.defs)


def selection(rng, h):
    group, fixed, prof = observe.axes(h)
    cands = []
    for x in fixed + group:
        if not x.expr.isidentifier():
            continue
        if isinstance(x, histbook.cut):
            cands += [x.expr, "not " + x.expr]
        elif isinstance(x, (histbook.bin, histbook.split)):
            ks = [k for k in x.keys() if isinstance(k, histbook.axis.Interval)]
            es = sorted(set(v for k in ks for v in (k.low, k.high) if abs(v) < 1e300))
            if es:
                e = rng.choice(es)
                cands += ["{0} {1} {2!r}".format(x.expr, op, e) for op in (("<", ">=") if x.closedlow else ("<=", ">"))]
        elif isinstance(x, histbook.groupby):
            ks = [k for k in h.groupkeys(x) if isinstance(k, str)]
            if ks:
                cands += ["{0} == {1!r}".format(x.expr, rng.choice(sorted(ks)))] * 3
                cands += ["{0} != {1!r}".format(x.expr, rng.choice(sorted(ks)))] * 3
                cands += ["{0} != 'nosuch'".format(x.expr), "{0} in {{{1}}}".format(x.expr, ", ".join(repr(k) for k in sorted(ks)))]
    return rng.choice(cands) if cands else None
