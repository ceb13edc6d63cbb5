"""C09: project and drop equal filling without the removed axes or profiles."""
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 8750, 80000
RULE = "a case = a histogram filled in one or more batches, projected onto and dropped of several subsets, compared with the marginal sums of the events, then filled further; distinct = (axis kinds, kept positions, weighted, dropped profiles)"
REQUIRED = ["projections", "projections_with_groups_removed", "projections_to_nothing", "projections_to_all", "drops", "refilled", "on_unfilled", "chained", "by_expression", "by_index", "by_object", "unknown_refused", "weighted", "with_profiles", "group_axes_2", "groups_emptied", "added_to_fresh"]


def marginal(spec, rows, keep):
    out = {}
    for k, b in model.fill(spec, [(r, 1.0) for r in rows]).items():
        out = model.addbins(out, {tuple(k[i] for i in keep): b})
    return out


def run_case(ctx, rng, index):
    axes = gen.gen_axes(rng, rng.choice([1, 2, 2, 3, 3, 4]), maxgroup=rng.choice([1, 2, 2, 3]), kinds=["groupby", "groupby", "groupbin"] + gen.KINDS if rng.random() < 0.25 else None)
    spec = gen.gen_spec(rng, axes=axes, profiles=0.5)
    ctx.log(str(spec))
    if sum(a["k"] in ("groupby", "groupbin") for a in axes) >= 2:
        ctx.seen("group_axes_2")
    h = ctx.do("construct", spec.make)
    rows = []
    if rng.random() < 0.08:
        ctx.seen("on_unfilled")
    else:
        for _ in range(rng.choice([1, 1, 2, 3])):
            data = gen.gen_data(rng, spec, n=rng.choice([0, 3, 10, 40]), large=0.01)
            gen.fill_hist(ctx, h, data)
            rows += data.rows
    strings = [a["expr"] for a in spec.ordered if a["k"] == "groupby" and a["expr"] in ("s", "t")]
    if strings and rng.random() < 0.12:
        # no group is left
        h = ctx.do("select", h.select, "{0} == 'nowhere'".format(rng.choice(strings)))
        rows = []
        ctx.seen("groups_emptied")
    before = observe.check(ctx, h, spec, marginal(spec, rows, range(len(spec.axes))), "before")
    cur, curspec, base = h, spec, rows
    keepidx = list(range(len(spec.ordered)))
    nprofs = list(range(len(spec.profiles)))
    for depth in range(rng.choice([1, 2, 3])):
        binaxes = [x for x in cur.axis if not isinstance(x, histbook.profile)]
        if curspec.profiles and rng.random() < 0.4:
            out = rng.sample(range(len(curspec.profiles)), rng.randrange(1, len(curspec.profiles) + 1))
            args = []
            for i in out:
                r = rng.random()
                prof = [x for x in cur.axis if isinstance(x, histbook.profile)][i]
                args.append(prof if r < 0.4 else curspec.profiles[i] if r < 0.8 else len(binaxes) + i)
            new = ctx.do("drop({0})".format(args), cur.drop, *args)
            ctx.seen("drops")
            newspec = curspec.replace(profiles=[p for i, p in enumerate(curspec.profiles) if i not in out])
            ctx.signature("drop", len(curspec.profiles), tuple(sorted(out)), spec.weighted)
        else:
            keep = sorted(rng.sample(range(len(binaxes)), rng.randrange(0, len(binaxes) + 1)))
            args = []
            for i in keep:
                r = rng.random()
                if r < 0.4:
                    args.append(binaxes[i])
                    ctx.seen("by_object")
                elif r < 0.75:
                    args.append(curspec.ordered[i]["expr"])
                    ctx.seen("by_expression")
                else:
                    args.append(i)
                    ctx.seen("by_index")
            rng.shuffle(args)
            new = ctx.do("project({0})".format(args), cur.project, *args)
            ctx.seen("projections")
            if any(curspec.ordered[i]["k"] in ("groupby", "groupbin") for i in range(len(binaxes)) if i not in keep):
                ctx.seen("projections_with_groups_removed")
            if not keep:
                ctx.seen("projections_to_nothing")
            if len(keep) == len(binaxes):
                ctx.seen("projections_to_all")
            newspec = curspec.replace(axes=[curspec.ordered[i] for i in keep])
            keepidx = [keepidx[i] for i in keep]
            ctx.signature(tuple(a["k"] for a in curspec.ordered), tuple(keep), spec.weighted, len(spec.profiles))
        if depth > 0:
            ctx.seen("chained")
        want = marginal(spec.replace(profiles=newspec.profiles), base, keepidx)
        have = [model.spec_of(x) for x in new.axis]
        expected = [dict(model.spec_of(model.make_axis(a))) for a in newspec.ordered] + [model.axis("profile", model.make_axis(model.axis("profile", p)).expr) for p in newspec.profiles]
        ctx.check([str(x) for x in have] == [str(x) for x in expected], "axes are {0}, expected {1}", have, expected)
        observe.check(ctx, new, newspec, want, "projected")
        cur, curspec = new, newspec
    if spec.weighted:
        ctx.seen("weighted")
    if spec.profiles:
        ctx.seen("with_profiles")
    bad = "zzz" if rng.random() < 0.5 else histbook.bin("x", 77, 0, 1)
    ctx.must_refuse("project onto {0}".format(bad), Exception, h.project, bad)
    ctx.must_refuse("drop {0}".format(bad), Exception, h.drop, bad)
    ctx.seen("unknown_refused")
    if curspec.axes:
        # the result can be filled with its own axes; the events it was not able to count before count now
        more = gen.gen_data(rng, [spec], n=rng.choice([3, 15]))
        gen.fill_hist(ctx, cur, more, "projected")
        ctx.seen("refilled")
        want = model.addbins(want, model.fill(curspec, more.entries()))
        observe.check(ctx, cur, curspec, want, "filled after project")
    if curspec.axes and rng.random() < 0.3:
        gen.adds(ctx, rng, cur, curspec, want, "projected")
    got = observe.content(h)
    ctx.check(repr(got) == repr(before), "project or drop changed the histogram it was applied to")
