"""Specifications that differ from a given one in exactly one respect."""
from hbv import gen, model


def variant_axis(rng, a):
    """(axis that differs in one parameter, name of the parameter)"""
    k = a["k"]
    b = dict(a)
    choices = ["expr", "kind"]
    if k == "bin":
        choices += ["n", "lo", "hi", "u", "o", "nan", "cl"]
    elif k == "split":
        choices += ["edges", "u", "o", "nan", "cl"]
    elif k == "intbin":
        choices += ["min", "max", "u", "o"]
    elif k == "groupbin":
        choices += ["bw", "or", "nan", "cl"]
    while True:
        what = rng.choice(choices)
        b = dict(a)
        if what == "expr":
            pool = gen.BOOLEXPR if k == "cut" else gen.CATEXPR if k == "groupby" else gen.INTEXPR if k == "intbin" else gen.ANYEXPR + gen.NUMEXPR
            e = rng.choice(pool)
            if e == a["expr"]:
                continue
            b["expr"] = e
        elif what == "kind":
            if k == "bin":
                b = model.splitaxis(a["expr"], model.edges_of(a), a["u"], a["o"], a["nan"], a["cl"])
            elif k == "split" and len(a["edges"]) > 1:
                b = model.binaxis(a["expr"], len(a["edges"]) - 1, a["edges"][0], a["edges"][-1], a["u"], a["o"], a["nan"], a["cl"])
            elif k == "intbin":
                b = model.binaxis(a["expr"], a["max"] - a["min"] + 1, a["min"] - 0.5, a["max"] + 0.5, a["u"], a["o"], False, True)
            elif k == "groupby":
                b = model.axis("cut", a["expr"]) if a["expr"] == "p" else model.axis("groupbin", a["expr"], bw=1.0, nan=True, cl=True, **{"or": 0.0})
                if a["expr"] in ("s", "t"):
                    continue
            elif k == "groupbin":
                b = model.axis("groupby", a["expr"])
            else:
                continue
        elif what in ("u", "o", "nan", "cl"):
            b[what] = not a[what]
            if k == "split" and len(a["edges"]) == 1 and not (b["u"] or b["o"] or b["nan"]):
                continue
        elif what == "n":
            b["n"] = a["n"] + rng.choice([1, 2])
        elif what == "lo":
            b["lo"] = a["lo"] - rng.choice([1, 0.5])
        elif what == "hi":
            b["hi"] = a["hi"] + rng.choice([1, 0.5])
        elif what == "min":
            b["min"] = a["min"] - 1
        elif what == "max":
            b["max"] = a["max"] + 1
        elif what == "bw":
            b["bw"] = a["bw"] * 2
        elif what == "or":
            b["or"] = a["or"] + 0.125
        elif what == "edges":
            e = list(a["edges"])
            r = rng.random()
            if r < 0.4:
                e[rng.randrange(len(e))] += 0.0625
            elif r < 0.7 or len(e) == 1:
                e.append(e[-1] + 1)
            else:
                e.pop(rng.randrange(len(e)))
                if len(e) == 1 and not (a["u"] or a["o"] or a["nan"]):
                    continue
            b["edges"] = tuple(e)
        return b, k + "." + what


def variant(rng, spec, only=None):
    """(spec that differs in one respect, description); only: subset of 'axis', 'order', 'fewer', 'more', 'profile', 'weighting', 'weight', 'filter', 'defs'."""
    while True:
        what = rng.choice(only or ["axis", "axis", "axis", "order", "fewer", "more", "profile", "weighting"])
        if what == "axis":
            i = rng.randrange(len(spec.axes))
            b, name = variant_axis(rng, spec.axes[i])
            if any(x["expr"] == b["expr"] for j, x in enumerate(spec.axes) if j != i):
                continue
            return spec.replace(axes=[b if j == i else x for j, x in enumerate(spec.axes)]), name
        elif what == "order":
            o = spec.ordered
            pairs = [i for i in range(len(o) - 1) if (o[i]["k"] in ("groupby", "groupbin")) == (o[i + 1]["k"] in ("groupby", "groupbin"))]
            if not pairs:
                continue
            i = rng.choice(pairs)
            o[i], o[i + 1] = o[i + 1], o[i]
            return spec.replace(axes=o), "order"
        elif what == "fewer":
            if len(spec.axes) < 2:
                continue
            i = rng.randrange(len(spec.axes))
            return spec.replace(axes=[x for j, x in enumerate(spec.axes) if j != i]), "fewer"
        elif what == "more":
            a = gen.gen_axis(rng)
            if any(x["expr"] == a["expr"] for x in spec.axes):
                continue
            return spec.replace(axes=spec.axes + [a]), "more"
        elif what == "profile":
            r = rng.random()
            if len(spec.profiles) > 1 and rng.random() < 0.3:
                i = rng.randrange(1, len(spec.profiles))
                return spec.replace(profiles=spec.profiles[i:] + spec.profiles[:i]), "profile order"
            if r < 0.5 or not spec.profiles:
                p = rng.choice(gen.PROFILES)
                if p in spec.profiles:
                    continue
                return spec.replace(profiles=spec.profiles + [p]), "profile more"
            elif r < 0.75:
                return spec.replace(profiles=spec.profiles[1:]), "profile fewer"
            else:
                p = rng.choice(gen.PROFILES)
                if p in spec.profiles:
                    continue
                return spec.replace(profiles=[p] + spec.profiles[1:]), "profile expr"
        elif what == "weighting":
            if spec.weighted:
                return spec.replace(weight=None, filter=None), "unweighted"
            return spec.replace(weight=rng.choice(["w", 2])), "weighted"
        elif what == "weight":
            if spec.weight is None:
                continue
            w = rng.choice(gen.WEIGHTS)
            if w == spec.weight:
                continue
            return spec.replace(weight=w), "weight"
        elif what == "filter":
            if spec.filter is None:
                continue
            f = rng.choice(gen.FILTERS)
            if f == spec.filter:
                continue
            return spec.replace(filter=f), "filter"
        raise AssertionError(what)
