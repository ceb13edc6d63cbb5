"""C10: rebin and rebinby equal filling with the coarser binning."""
import math

import numpy
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 6500, 100000
RULE = "a case = a filled histogram, one axis of which is rebinned (possibly twice) at a subset of its edges or by a factor, compared with the events in the coarser bins, then filled further; distinct = (kind, flags, number of bins, kept edges or factor, position)"
REQUIRED = ["rebin_bin", "rebin_split", "rebin_intbin", "rebinby_bin", "rebinby_split", "rebinby_intbin", "rebinby_groupbin", "refused_edges", "refused_axes", "refused_factors", "refilled", "on_unfilled", "inexact_factor", "inner_edges_only", "single_edge", "chained", "weighted", "with_profiles", "added_to_fresh", "numpy_arguments"]


def original_edges(a):
    if a["k"] == "intbin":
        return [x - 0.5 for x in range(a["min"], a["max"] + 2)]
    return model.edges_of(a)


def coarser_want(spec, rows, pos, newspec):
    """Events that had a bin in the original histogram, in the bins of the new one."""
    return model.fill(newspec, [(r, 1.0) for r in rows if model.locate(spec, r) not in (None, model.AMBIGUOUS)])


def run_case(ctx, rng, index):
    kind = rng.choice(["bin", "bin", "split", "intbin", "groupbin"])
    decimal = rng.random() < 0.2
    target = gen.widen(rng, gen.gen_axis(rng, kind, decimal=decimal))
    others = [a for a in gen.gen_axes(rng, rng.choice([0, 1, 1, 2]), maxgroup=2) if a["expr"] != target["expr"]]
    axes = others + [target]
    rng.shuffle(axes)
    spec = gen.gen_spec(rng, axes=axes, weight=0.35, filter=0.15, profiles=0.3)
    ctx.log(str(spec))
    h = ctx.do("construct", spec.make)
    rows = []
    if rng.random() < 0.07:
        ctx.seen("on_unfilled")
    else:
        for _ in range(rng.choice([1, 1, 2])):
            data = gen.gen_data(rng, spec, n=rng.choice([5, 20, 50]), large=0.01)
            gen.fill_hist(ctx, h, data)
            rows += data.rows
    before = observe.check(ctx, h, spec, model.fill(spec, [(r, 1.0) for r in rows]), "before")
    base, basespec = h, spec
    pos = [i for i, a in enumerate(spec.ordered) if a is target][0]

    for depth in range(rng.choice([1, 1, 2])):
        target = spec.ordered[pos]
        ax = list(h.axis)[pos]
        refer = rng.choice([ax, target["expr"], pos, pos - len(h.axis)])
        asnumpy = rng.random() < 0.2
        if asnumpy:
            ctx.seen("numpy_arguments")
        if target["k"] == "groupbin" or rng.random() < 0.45:
            factor = rng.choice([1, 2, 2, 3, 4, 5])
            new = ctx.do("rebinby({0}, {1})".format(refer, factor), h.rebinby, refer, rng.choice([numpy.int64, numpy.int32, numpy.uint8])(factor) if asnumpy else factor)
            ctx.seen("rebinby_" + target["k"])
            if target["k"] == "groupbin":
                newaxis = dict(target, bw=target["bw"] * factor)
            else:
                e = original_edges(target)
                if (len(e) - 1) % factor != 0:
                    ctx.seen("inexact_factor")
                if len(e) == 1:
                    kept = e
                else:
                    kept = e[:-1:factor] + [e[-1]]
                newaxis = model.splitaxis(target["expr"], kept, target["u"], target["o"], target.get("nan", False), target.get("cl", True))
            sig = ("by", factor)
        else:
            e = original_edges(target)
            if target["k"] in ("bin", "split") and len(e) > 1 and not all(x == round(x * 1024) / 1024 for x in e):
                # the exact edges as the axis itself presents them
                ks = [k for k in ax.keys() if isinstance(k, histbook.axis.Interval) and math.isfinite(k.low) and math.isfinite(k.high)]
                e = [k.low for k in ks] + [ks[-1].high]
            m = rng.choice([1, 2, 2, 3, len(e)])
            kept = sorted(rng.sample(e, min(m, len(e))))
            if len(kept) == 1 and not (target["u"] or target["o"]):
                continue
            if len(kept) == 1:
                ctx.seen("single_edge")
            if kept[0] != e[0] and kept[-1] != e[-1]:
                ctx.seen("inner_edges_only")
            arg = list(kept)
            if rng.random() < 0.2:
                rng.shuffle(arg)
            if rng.random() < 0.3:
                arg = tuple(arg)
            if asnumpy:
                arg = numpy.array(arg, dtype=float)
            new = ctx.do("rebin({0}, {1})".format(refer, arg), h.rebin, refer, arg)
            ctx.seen("rebin_" + target["k"])
            newaxis = model.splitaxis(target["expr"], kept, target["u"], target["o"], target.get("nan", False), target.get("cl", True))
            sig = tuple(e.index(x) for x in kept)
        if target["k"] == "intbin":
            newaxis["nan"] = model.spec_of(list(new.axis)[pos]).get("nan", False)
        newspec = spec.replace(axes=[newaxis if a is target else a for a in spec.ordered])
        ctx.signature(target["k"], tuple(target.get(n) for n in ("u", "o", "nan", "cl")), sig, pos, len(spec.axes))
        if depth:
            ctx.seen("chained")
        have = model.spec_of(list(new.axis)[pos])
        ctx.check(have["k"] == newaxis["k"] or target["k"] != "groupbin", "rebinned axis is {0}", have)
        # rounding of decimal edges: drop nothing, but compare only events that are clear in the new binning too
        usable = [r for r in rows if model.unambiguous(newspec, r) and model.unambiguous(basespec, r)]
        if len(usable) != len(rows):
            ctx.seen("cases_with_unclear_events")
            return
        observe.check(ctx, new, newspec, coarser_want(basespec, rows, pos, newspec), "rebinned")
        h, spec = new, newspec
    if spec.weighted:
        ctx.seen("weighted")
    if spec.profiles:
        ctx.seen("with_profiles")

    got = observe.content(base)
    ctx.check(repr(got) == repr(before), "rebin changed the histogram it was applied to")

    # what cannot be done is refused
    bt = basespec.ordered[pos]
    bax = list(base.axis)[pos]
    if bt["k"] != "groupbin":
        e = original_edges(bt)
        bad = sorted(set([e[0] + 0.0625] + rng.sample(e, min(1, len(e)))))
        ctx.must_refuse("rebin at {0}".format(bad), (ValueError, IndexError, TypeError), base.rebin, bax, bad)
        ctx.seen("refused_edges")
        bad = [e[0] - 1000, e[0]]
        ctx.must_refuse("rebin at {0}".format(bad), (ValueError, IndexError, TypeError), base.rebin, bax, bad)
    for a in basespec.ordered:
        if a["k"] in ("cut", "groupby"):
            ctx.must_refuse("rebinby {0}".format(a["expr"]), Exception, base.rebinby, a["expr"], 2)
            ctx.must_refuse("rebin {0}".format(a["expr"]), Exception, base.rebin, a["expr"], [0, 1])
            ctx.seen("refused_axes")
    for f in (0, -1, 1.5):
        ctx.must_refuse("rebinby factor {0}".format(f), Exception, base.rebinby, bax, f)
    ctx.seen("refused_factors")

    # the result remains usable
    now = model.Spec([model.spec_of(x) for x in h.axis if not isinstance(x, histbook.profile)], spec.profiles, spec.weight, spec.filter, spec.defs)
    more = gen.gen_data(rng, [now, spec], n=rng.choice([5, 20]))
    gen.fill_hist(ctx, h, more, "rebinned")
    ctx.seen("refilled")
    want = model.addbins(coarser_want(basespec, rows, pos, spec), model.fill(spec, more.entries()))
    observe.check(ctx, h, spec, want, "filled after rebin")
    if rng.random() < 0.3:
        gen.adds(ctx, rng, h, now, want, "rebinned")
