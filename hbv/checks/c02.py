"""C02: counts are sums of weights, errors root sums of squares; filters and NaN weights remove events."""
import math

import numpy

from hbv import gen, model, observe

QUICK, THOROUGH = 22000, 150000
RULE = "a case = random weighted and/or filtered histogram filled in one or more calls; distinct = (axis kinds, weight, filter, profile count, dtype of w)"
REQUIRED = ["negative_or_zero_weights", "nan_weights", "filtered_out", "constant_weight", "filter_with_weight", "events_without_bin", "fluent"]

CONSTANTS = [2, 0.5, -1, 0, 3.25, numpy.int64(3), numpy.float32(0.25), numpy.float64(1.5), numpy.int8(100), True and 7, 1e3]


def run_case(ctx, rng, index):
    spec = gen.gen_spec(rng, weight=0, filter=0, profiles=0.15, maxgroup=rng.choice([0, 1, 2]))
    r = rng.random()
    if r < 0.75:
        spec.weight = rng.choice(CONSTANTS) if rng.random() < 0.25 else rng.choice([w for w in gen.WEIGHTS if isinstance(w, str)])
    if r > 0.5:
        spec.filter = rng.choice(gen.FILTERS)
    ctx.log(str(spec))
    if rng.random() < 0.25:
        # the same histogram by the fluent methods
        ctx.seen("fluent")
        plain = spec.replace(weight=None, filter=None)
        h = ctx.do("construct", plain.make)
        steps = [("weight", spec.weight), ("filter", spec.filter)]
        rng.shuffle(steps)
        for name, x in steps:
            if x is not None:
                h = ctx.do("h = h.{0}({1!r})".format(name, x), getattr(h, name), x)
    else:
        h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        data = gen.gen_data(rng, spec, large=0.02)
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
        ctx.signature(tuple(a["k"] for a in spec.axes), str(spec.weight), str(spec.filter), len(spec.profiles), data.arrays["w"].dtype.str if "w" in data.arrays else None)
    want = model.fill(spec, entries)
    observe.check(ctx, h, spec, want, "after filling")
    counted = sum(b.n for b in want.values())
    ctx.seen("events_without_bin", len(entries) - counted)
    if spec.weight is not None and not isinstance(spec.weight, str):
        ctx.seen("constant_weight")
    if spec.weight is not None and spec.filter is not None:
        ctx.seen("filter_with_weight")
    for row, _ in entries:
        w = row.get("w")
        if w is not None and w != w:
            ctx.seen("nan_weights")
        if model.weight_of(spec, row) <= 0:
            ctx.seen("negative_or_zero_weights")
        if spec.filter is not None and model.weight_of(spec.replace(weight=None), row) == 0:
            ctx.seen("filtered_out")
