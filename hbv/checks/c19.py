"""C19: plots show the histogram's contents."""
import itertools
import json
import math
import types

import histbook
import histbook.axis

from hbv import gen, observe, standins, vegaview

QUICK, THOROUGH = 3000, 80000
RULE = "a case = a filled histogram plotted through random chains of overlay/stack/beside/below and each kind of mark, alone and in random combinations; the Vega-Lite document is read as a renderer reads it and what it draws is compared with the table of the projection; distinct = (kinds of axes in the chain, channels, mark, options, combination)"
REQUIRED = ["plots", "plot_bar", "plot_step", "plot_area", "plot_line", "plot_marker", "plot_heatmap", "channel_overlay", "channel_stack", "channel_beside", "channel_below", "x_bin", "x_intbin", "x_split", "x_cut", "x_groupby", "x_groupbin", "with_error", "with_profile", "normalized", "log",
            "ordered_stack", "combination_overlay", "combination_beside", "combination_below", "combination_grid", "nested_combination", "marks_compared", "color_domains", "unfilled", "refused", "options", "scales_chosen", "configs", "many_plots", "rules_compared", "rows_of_table", "frontends"]


def close(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x != x or y != y:
        return x != x and y != y
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-3)


def label(key):
    return ("pass" if key else "fail") if isinstance(key, bool) or type(key).__name__ == "bool_" else str(key)


class Bins(object):
    """Bins of an axis of a projected histogram: canonical key -> label, limits."""
    def __init__(self, h, axis):
        self.axis = axis
        kind = self.kind = type(axis).__name__
        shown = axis.bin() if kind == "intbin" else axis
        if kind == "groupby":
            keys = sorted(set(h.groupkeys(axis)))
            pairs = [(k, k) for k in keys]
        elif kind == "groupbin":
            keys = h.groupkeys(axis)
            content = dict((k, None) for k in keys)
            pairs = [(k, k) for k in axis.keys(content)]
        else:
            pairs = list(zip(axis.keys(), shown.keys()))
        self.order = [observe.keyof(axis, k) for k, s in pairs]
        self.label = dict((observe.keyof(axis, k), label(s)) for k, s in pairs)
        self.limits = dict((observe.keyof(axis, k), (s.low, s.high)) for k, s in pairs if isinstance(s, histbook.axis.Interval))
        self.numeric = kind in ("bin", "intbin", "split")

    def finite(self, key):
        lo, hi = self.limits.get(key, (float("nan"), float("nan")))
        return math.isfinite(lo) and math.isfinite(hi)


class Plot(object):
    """A plot and what it should draw."""
    def __init__(self, ctx, rng, h, name):
        self.ctx, self.h = ctx, h
        group, fixed, prof = observe.axes(h)
        axes = group + fixed
        self.heat = len(axes) >= 2 and rng.random() < 0.15
        chosen = rng.sample(axes, len(axes))
        self.kind = "heatmap" if self.heat else rng.choice(["bar", "step", "area", "line", "marker"])
        self.profile = rng.choice(prof) if prof and rng.random() < 0.5 else None
        self.channels = []
        self.x = chosen.pop()
        if self.heat:
            self.y = chosen.pop()
            if type(self.x).__name__ == "split" or type(self.y).__name__ == "split":
                ctx.must_refuse("heatmap of split", (NotImplementedError, TypeError), lambda: h.heatmap(self.x, self.y).vegalite())
                ctx.seen("refused")
                chosen.append(self.y)
                self.heat, self.kind = False, "step"
        allowed = ["beside", "below"] + ([] if self.heat else ["stack" if self.kind in ("bar", "area") and rng.random() < 0.6 else "overlay"])
        rng.shuffle(allowed)
        for c in allowed:
            if chosen and rng.random() < 0.55:
                self.channels.append((c, chosen.pop()))
        facet = any(c in ("beside", "below") for c, a in self.channels)
        self.error = not self.heat and not facet and rng.random() < 0.4
        self.normalized = not self.heat and rng.random() < 0.2
        self.log = rng.choice(["log", {"type": "log"}]) if not self.heat and rng.random() < 0.15 else None
        self.scales = {}
        for c in ("x", "color") + (("y",) if self.heat else ()):
            if rng.random() < 0.1:
                self.scales[c] = rng.choice(["sqrt", {"type": "pow", "exponent": 0.3}, {"zero": True}, {}])
                ctx.seen("scales_chosen")
        self.opts = {}
        if rng.random() < 0.25:
            self.opts = rng.choice([{"width": 300}, {"height": 111}, {"title": "T"}, {"width": 300, "height": 200, "title": "hello"}])
            ctx.seen("options")
        self.config = rng.choice([{"a": 1}, {"a": 2, "b": 3}]) if rng.random() < 0.15 else None
        kw = dict(self.opts)
        if self.config is not None:
            kw["config"] = dict(self.config)
        for c, v in self.scales.items():
            kw[c + "scale"] = dict(v) if isinstance(v, dict) else v
        self.order = None
        chain, text = h, name

        def ref(axis):
            r = rng.random()
            same = [a for a in h.axis if a.expr == axis.expr]
            if r < 0.4 and len(same) == 1:
                return axis.expr
            elif r < 0.7:
                return axis
            elif r < 0.85:
                return histbook.axis.Axis.fromjson(axis.tojson()) if len(same) == 1 else axis
            return list(h.axis).index(axis)
        for c, a in self.channels:
            if c == "stack" and rng.random() < 0.4:
                labels = [Bins(h, a).label[k] for k in Bins(h, a).order]
                rng.shuffle(labels)
                if labels:
                    self.order = labels
                    ctx.seen("ordered_stack")
            r = ref(a)
            text += ".{0}({1!r}{2})".format(c, r, "" if self.order is None or c != "stack" else ", order={0}".format(self.order))
            if c == "stack" and self.order is not None:
                chain = ctx.do(text, chain.stack, r, order=list(self.order))
            else:
                chain = ctx.do(text, getattr(chain, c), r)
        if self.profile is not None:
            kw["profile"] = self.profile if rng.random() < 0.5 else self.profile.expr
        if self.heat:
            args = [ref(self.x), ref(self.y)]
            if [self.x, self.y] == axes and rng.random() < 0.5:
                args = []
        else:
            args = [ref(self.x)] if len(axes) > 1 or rng.random() < 0.5 else []
            if self.error or self.kind == "marker":
                kw["error"] = self.error
            if self.normalized:
                kw["normalized"] = True
            if self.log is not None:
                kw["yscale"] = self.log
        self.text = "{0}.{1}({2})".format(text, self.kind, ", ".join([repr(x) for x in args] + ["{0}={1!r}".format(k, v) for k, v in sorted(kw.items())]))
        self.plot = ctx.do(self.text, getattr(chain, self.kind), *args, **kw)
        ctx.seen("plots")
        ctx.seen("plot_" + self.kind)
        ctx.seen("x_" + type(self.x).__name__)
        for c, a in self.channels:
            ctx.seen("channel_" + c)
        for f, n in ((self.error, "with_error"), (self.profile is not None, "with_profile"), (self.normalized, "normalized"), (self.log is not None, "log")):
            if f:
                ctx.seen(n)
        ctx.signature(tuple((c, type(a).__name__) for c, a in self.channels), self.kind, type(self.x).__name__, self.error, self.normalized, self.log is not None, self.profile is not None, bool(self.opts))
        self.expect()

    @property
    def units(self):
        return 2 if self.error else 1

    def expect(self):
        """Rows of the table of the projection."""
        self.used = [a for c, a in self.channels] + ([self.x, self.y] if self.heat else [self.x])
        p = self.h.project(*self.used)
        group, fixed, _ = observe.axes(p)
        prof = () if self.profile is None else (self.profile,)
        tab = p.table(*prof, count=self.profile is None, error=self.error, normalized=self.normalized, recarray=False)
        rows = observe.flatten(tab, group, fixed, 2 if self.error else 1, keepzeros=True)
        axes = group + fixed
        self.bins = dict((id(a), Bins(p, b)) for a in self.used for b in axes if a == b)
        pos = dict((id(a), [i for i, b in enumerate(axes) if a == b][0]) for a in self.used)
        filled = self.h.project(*self.used).table(count=True, error=False, recarray=False)
        counts = observe.flatten(filled, group, fixed, 1, keepzeros=True)
        self.rows = []
        for key, vals in rows.items():
            optional = self.profile is not None and not counts[key][0] > 0      # the mean of nothing
            self.rows.append((dict((id(a), key[pos[id(a)]]) for a in self.used), vals, optional))
        self.ctx.seen("rows_of_table", len(rows))

    def coordinate(self, axis, key, heat=False):
        """(value on the axis or None if not shown)"""
        b = self.bins[id(axis)]
        if heat and key in b.limits:
            return 0.5 * sum(b.limits[key]) if b.finite(key) else None
        if b.numeric and self.kind != "bar":
            return 0.5 * sum(b.limits[key]) if b.finite(key) else None
        return b.label[key]

    def facets(self, keys):
        out = {}
        for c, a in self.channels:
            out[{"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[c]] = self.bins[id(a)].label[keys[id(a)]]
        return out

    # ------------------------------------------------ comparing
    def check(self, units, doc):
        ctx = self.ctx
        ctx.check(len(units) == self.units, "{0}: drawn with {1} marks, expected {2}", self.text, len(units), self.units)
        u = units[0]
        numeric = self.bins[id(self.x)].numeric
        xtype = "nominal" if not numeric else "ordinal" if self.kind == "bar" else "quantitative"
        mark = {"bar": ("bar", None), "step": ("line", "step-before"), "area": ("area", "step-before"), "line": ("line", None), "marker": ("point", None), "heatmap": ("rect", None)}[self.kind]
        if self.kind in ("step", "area") and not numeric:
            mark = ("bar", None)
        ctx.check(u.mark == mark, "{0}: mark is {1}, expected {2}", self.text, u.mark, mark)
        ctx.check(u.encoding["x"]["type"] == xtype, "{0}: x is {1}, expected {2}", self.text, u.encoding["x"]["type"], xtype)
        ctx.check(u.encoding["x"]["axis"]["title"] == self.x.expr, "{0}: title of x is {1}", self.text, u.encoding["x"]["axis"]["title"])
        channels = set(["x", "y"] + (["color"] if self.heat else [])) | set({"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[c] for c, a in self.channels)
        ctx.check(set(c for c in u.encoding if c != "order") == channels, "{0}: encodes {1}, expected {2}", self.text, sorted(u.encoding), sorted(channels))
        for c, a in self.channels:
            e = u.encoding[{"overlay": "color", "stack": "color", "beside": "column", "below": "row"}[c]]
            ctx.check(e["type"] == "nominal" and (e.get("legend") or e.get("header"))["title"] == a.expr, "{0}: encoding of {1} is {2}", self.text, c, e)
        if not self.heat:
            ctx.check(u.encoding["y"]["type"] == "quantitative", "{0}: y is {1}", self.text, u.encoding["y"])
            want = self.profile.expr if self.profile is not None else "probability per bin" if self.normalized else "entries per bin"
            ctx.check(u.encoding["y"]["axis"]["title"] == want, "{0}: title of y is {1}", self.text, u.encoding["y"]["axis"]["title"])
        if self.log is not None:
            ctx.check(u.encoding["y"]["scale"] == {"type": "log"}, "{0}: scale of y is {1}", self.text, u.encoding["y"].get("scale"))
        for c, v in self.scales.items():
            if c in u.encoding:
                got = u.encoding[c].get("scale")
                ctx.check(got == (v if isinstance(v, dict) else {"type": v}), "{0}: scale of {1} is {2}", self.text, c, got)
        for c, e in u.encoding.items():
            got = e.get("scale") if isinstance(e, dict) else None
            ctx.check(got is None or not isinstance(got, dict) or "type" not in got or isinstance(got["type"], str), "{0}: scale of {1} is {2}", self.text, c, got)
        drawn = u.drawn()
        if self.heat:
            self.check_heat(u, drawn)
        elif numeric and self.kind in ("step", "area"):
            self.check_steps(drawn)
        else:
            self.check_points(drawn)
        for c, a in self.channels:
            if c in ("overlay", "stack"):
                self.check_color(u, drawn, c, a)
        if self.error:
            self.check_rules(units[1], xtype)

    def known(self, d):
        return dict((k, v) for k, v in d.items() if k in ("color", "column", "row"))

    def wanted(self, heat=False):
        """{(x, facets): (values, optional)} of the rows that are shown."""
        out = {}
        for keys, vals, optional in self.rows:
            x = self.coordinate(self.x, keys[id(self.x)], heat)
            if heat:
                y = self.coordinate(self.y, keys[id(self.y)], True)
                if x is None or y is None:
                    continue
                x = (x, y)
            if x is None:
                continue
            if self.log is not None and not vals[0] > 0:
                continue
            out.setdefault(tuple(sorted(self.facets(keys).items())), []).append((x, vals, optional))
        return out

    def match(self, drawn, want, what):
        """Each of the drawn (x, values) corresponds to one wanted."""
        left = list(want)
        for x, vals in drawn:
            hit = [w for w in left if (all(close(a, b) for a, b in zip(x, w[0])) if isinstance(x, tuple) else close(x, w[0])) and (w[2] or all(close(a, b) for a, b in zip(vals, w[1])))]
            if not hit:
                self.ctx.fail("{0}: {1}: draws {2} at {3}, but the table has {4}".format(self.text, what, vals, x, [w for w in want if w[0] == x] or sorted(want, key=repr)))
            left.remove(min(hit, key=lambda w: w[2]))
            self.ctx.seen("marks_compared")
        left = [w for w in left if not w[2]]
        self.ctx.check(not left, "{0}: {1}: does not draw {2}", self.text, what, left)

    def check_points(self, drawn):
        groups = {}
        for d in drawn:
            groups.setdefault(tuple(sorted(self.known(d).items())), []).append((d["x"], [d["y"]]))
        want = self.wanted()
        for g in set(groups) | set(want):
            self.match(groups.get(g, []), want.get(g, []), "facet {0}".format(dict(g)))

    def check_heat(self, u, drawn):
        groups = {}
        for d in drawn:
            groups.setdefault(tuple(sorted((k, v) for k, v in d.items() if k in ("column", "row"))), []).append(((d["x"], d["y"]), [d["color"]]))
        want = self.wanted(True)
        for g in set(groups) | set(want):
            self.match(groups.get(g, []), want.get(g, []), "facet {0}".format(dict(g)))
        for c, a in (("x", self.x), ("y", self.y)):
            e = u.encoding[c]
            b = self.bins[id(a)]
            self.ctx.check(e["axis"]["title"] == a.expr, "{0}: title of {1} is {2}", self.text, c, e["axis"]["title"])
            if b.kind in ("bin", "intbin"):
                lims = [b.limits[k] for k in b.order if b.finite(k)]
                lo, hi = lims[0][0], lims[-1][1]
                self.ctx.check(e["type"] == "quantitative" and close(e["bin"]["extent"][0], lo) and close(e["bin"]["extent"][1], hi) and close(e["bin"]["minstep"], (hi - lo) / len(lims)),
                               "{0}: binning of {1} is {2} for {3}", self.text, c, e["bin"], a)
                self.ctx.check("step" in e["bin"] or e["bin"].get("maxbins", 10) >= len(lims), "{0}: binning of {1} allows {2} bins, but {3} has {4}", self.text, c, e["bin"].get("maxbins"), a, len(lims))
            else:
                self.ctx.check(e["type"] == "nominal" and not e.get("bin"), "{0}: {1} is {2}", self.text, c, e)
        self.ctx.check(u.encoding["color"]["type"] == "quantitative", "{0}: color is {1}", self.text, u.encoding["color"])

    def check_steps(self, drawn):
        """Each curve goes from zero at the low edge through the bins' values at their low edges to zero at the high edge."""
        b = self.bins[id(self.x)]
        finite = [k for k in b.order if b.finite(k)]
        curves = {}
        for d in drawn:
            curves.setdefault(tuple(sorted(self.known(d).items())), []).append((d["x"], d["y"]))
        want = {}
        for keys, vals, optional in self.rows:
            if keys[id(self.x)] in finite:
                want.setdefault(tuple(sorted(self.facets(keys).items())), {})[keys[id(self.x)]] = (vals[0], optional)
        span = b.limits[finite[-1]][1] - b.limits[finite[0]][0] if finite else 0.0
        for g in set(curves) | set(want):
            points = sorted(curves.get(g, []), key=lambda p: p[0])
            expected = []
            if g in want:
                expected.append((b.limits[finite[0]][0], 0.0, False))
                expected.extend((b.limits[k][0],) + want[g][k] for k in finite)
                expected.append((b.limits[finite[-1]][1], 0.0, False))
            if self.log is not None:
                expected = [e for e in expected if e[1] > 0]
            if any(e[2] for e in expected) and len(points) != len(expected):
                expected = [e for e in expected if not e[2]]
                points = [p for p in points if any(abs(p[0] - e[0]) <= 1e-9 * span for e in expected)]
            ok = len(points) == len(expected) and all(abs(p[0] - e[0]) <= 1e-9 * span and (e[2] or close(p[1], e[1])) for p, e in zip(points, expected))
            self.ctx.check(ok, "{0}: the curve of {1} goes through\n    {2}, expected\n    {3}", self.text, dict(g), points, [e[:2] for e in expected])
            self.ctx.seen("marks_compared", len(points))

    def check_color(self, u, drawn, c, a):
        b = self.bins[id(a)]
        labels = [b.label[k] for k in b.order]
        domain = None if "color" in self.scales else u.encoding["color"]["scale"]["domain"]
        self.ctx.seen("color_domains")
        if ("NaN",) in b.order and b.kind == "groupbin":
            self.ctx.seen("nan_in_group")
        want = labels
        if c == "stack":
            if self.order is not None:
                want = self.order
            places = dict((d["color"], d["order"]) for d in drawn)
            seq = [places[x] for x in want if x in places]
            self.ctx.check(all(x < y for x, y in zip(seq[:-1], seq[1:])), "{0}: stacked at {1}, expected in the order {2}", self.text, places, want)
            want = want[::-1]
            self.ctx.check(u.encoding["y"].get("aggregate") == "sum", "{0}: y is {1}", self.text, u.encoding["y"])
        self.ctx.check(domain is None or list(domain) == list(want) or (not drawn and set(domain) <= set(want)), "{0}: color domain is {1}, expected {2}", self.text, domain, want)

    def check_rules(self, u, xtype):
        """An error bar of each bin that has an error, at the middle of the bin."""
        self.ctx.check(u.mark == ("rule", None), "{0}: mark of the errors is {1}", self.text, u.mark)
        self.ctx.check(u.encoding["x"]["type"] == xtype, "{0}: x of the errors is {1} but x of the marks is {2}", self.text, u.encoding["x"]["type"], xtype)
        got = []
        for d in u.drawn():
            lo, hi = d["y"], d["y2"]
            if lo != hi and lo == lo:
                got.append((d["x"], [min(lo, hi), max(lo, hi)]))
        want = []
        for keys, vals, optional in self.rows:
            x = self.coordinate(self.x, keys[id(self.x)])
            if x is None or (self.log is not None and not vals[0] > 0):
                continue
            lo, hi = vals[0] - vals[1], vals[0] + vals[1]
            if lo != hi and lo == lo or optional:
                want.append((x, [min(lo, hi), max(lo, hi)], optional))
        self.match(got, want, "error bars")
        self.ctx.seen("rules_compared", len(got))


class Tree(object):
    """A combination and the plots in it."""
    def __init__(self, ctx, rng, kind, parts):
        self.ctx, self.kind, self.parts = ctx, kind, parts
        self.config = {"z": 9, "a": 7} if rng.random() < 0.15 else None
        kw = {} if self.config is None else {"config": dict(self.config)}
        self.numcol = rng.choice([1, 2, 3])
        args = [p.plot for p in parts]
        if len(args) > 1 and rng.random() < 0.3:
            args = [args[:2]] + args[2:]
        self.text = "{0}({1})".format(kind, ", ".join(p.text for p in parts))
        self.plot = ctx.do(kind, getattr(histbook, kind), *([self.numcol] if kind == "grid" else []) + args, **kw)
        ctx.seen("combination_" + kind)

    def configs(self):
        out = {}
        for p in self.parts:
            if isinstance(p, Tree):
                out.update(p.configs_below())
            elif p.config is not None:
                out.update(p.config)
        if self.config is not None:
            out.update(self.config)
        return out

    def configs_below(self):
        out = {}
        for p in self.parts:
            if isinstance(p, Tree):
                out.update(p.configs_below())
            elif p.config is not None:
                out.update(p.config)
        return out

    def plots(self):
        return list(itertools.chain.from_iterable(p.plots() if isinstance(p, Tree) else [p] for p in self.parts))


def verify(item, view, doc):
    """The view (see vegaview.read) draws the item."""
    ctx = item.ctx
    if isinstance(item, Plot):
        units = [view[1]] if view[0] == "unit" else [x[1] for x in view[1]] if view[0] == "layer" else None
        ctx.check(units is not None, "{0}: not a single view: {1}", item.text, view)
        item.check(units, doc)
    elif item.kind == "overlay":
        ctx.check(view[0] in ("layer", "unit"), "{0} is a {1}", item.text, view[0])
        units = [view[1]] if view[0] == "unit" else [x[1] for x in view[1]]
        for p in item.parts:
            mine, units = units[:p.units], units[p.units:]
            p.check(mine, doc)
        ctx.check(not units, "{0} has additional layers", item.text)
    elif item.kind in ("beside", "below"):
        want = {"beside": "hconcat", "below": "vconcat"}[item.kind]
        ctx.check(view[0] == want and len(view[1]) == len(item.parts), "{0} is a {1} of {2}", item.text, view[0], len(view[1]))
        for p, v in zip(item.parts, view[1]):
            verify(p, v, doc)
    else:
        rows = [item.parts[i:i + item.numcol] for i in range(0, len(item.parts), item.numcol)]
        ctx.check(view[0] == "vconcat" and all(v[0] == "hconcat" for v in view[1]) and [len(v[1]) for v in view[1]] == [len(r) for r in rows], "{0} in {1} columns is laid out as {2}", item.text, item.numcol, [(v[0], len(v[1])) for v in view[1]])
        for r, v in zip(rows, view[1]):
            for p, x in zip(r, v[1]):
                verify(p, x, doc)


def show(ctx, item):
    doc = ctx.do("{0}.vegalite()".format(item.text), item.plot.vegalite)
    try:
        doc = json.loads(json.dumps(doc))
    except Exception as err:
        ctx.fail("{0}: the document is not JSON: {1}".format(item.text, err))
    verify(item, vegaview.read(doc), doc)
    if isinstance(item, Plot):
        for k, v in item.opts.items():
            ctx.check(doc.get(k) == v, "{0}: {1} is {2}", item.text, k, doc.get(k))
        ctx.check(doc.get("config") == item.config, "{0}: config is {1}", item.text, doc.get("config"))
    else:
        if item.configs():
            ctx.seen("configs")
        ctx.check((doc.get("config") or {}) == item.configs(), "{0}: config is {1}, expected {2}", item.text, doc.get("config"), item.configs())
    got = []
    ctx.check(item.plot.to(lambda x: got.append(x) or 5) == 5 and json.loads(json.dumps(got[0], sort_keys=True, default=str)) is not None, "to() of {0}", item.text)
    ctx.check(repr(json.loads(json.dumps(got[0]))) == repr(doc), "{0}: a second document differs from the first", item.text)


def frontends(ctx, rng, item):
    """Each way of displaying the plot hands its document over to the (stand-in) library, once, and returns what the library makes of it."""
    doc = json.loads(json.dumps(item.plot.vegalite()))
    calls = []

    def receiver(name):
        def receive(doc, **opts):
            calls.append((name, opts, json.loads(json.dumps(doc))))
            return ("shown by", name)
        return receive
    vega, vegascope, altair = types.ModuleType("vega"), types.ModuleType("vegascope"), types.ModuleType("altair")
    vega.VegaLite = receiver("VegaLite")
    canvases = []

    def local():
        canvases.append(receiver("local"))
        return canvases[-1]
    vegascope.LocalCanvas = local
    altair.Chart = type("Chart", (), {"from_dict": staticmethod(receiver("from_dict"))})
    with standins.modules(vega=vega, vegascope=vegascope, altair=altair):
        def expect(what, name, opts, fcn):
            del calls[:]
            out = ctx.do("{0} of {1}".format(what, item.text), fcn)
            ctx.check(out == ("shown by", name), "{0} of {1} returns {2}", what, item.text, out)
            ctx.check(len(calls) == 1 and calls[0][0] == name and all(calls[0][1].get(k) == v for k, v in opts.items()), "{0} of {1} called {2}", what, item.text, [(x[0], x[1]) for x in calls])
            ctx.check(repr(calls[0][2]) == repr(doc), "{0} of {1} shows another document", what, item.text)
        expect("ipyvega()", "VegaLite", {}, lambda: item.plot.ipyvega())
        expect("vegascope()", "local", {}, lambda: item.plot.vegascope())
        expect("vegascope()", "local", {}, lambda: item.plot.vegascope())
        ctx.check(len(canvases) == 1, "vegascope() opened {0} canvases", len(canvases))
        expect("vegascope(canvas)", "mine", {}, lambda: item.plot.vegascope(receiver("mine")))
        validate = rng.choice([True, False])
        expect("altair()", "from_dict", {"validate": validate}, lambda: item.plot.altair(validate))
        expect("altair()", "from_dict", {}, lambda: item.plot.altair())
    bundle = ctx.do("_repr_mimebundle_ of {0}".format(item.text), item.plot._repr_mimebundle_)
    if isinstance(bundle, tuple):
        bundle = bundle[0]
    ctx.check("application/vnd.vegalite.v2+json" in bundle and repr(json.loads(json.dumps(bundle["application/vnd.vegalite.v2+json"]))) == repr(doc), "the notebook representation of {0} is another document: {1}", item.text, sorted(bundle))
    ctx.seen("frontends")


def histogram(ctx, rng, i):
    spec = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3, 3, 4]), weight=0.3, filter=0.1, profiles=0.4, maxgroup=2, catexpr=["s", "t", "i", "p"])
    h = ctx.do("h{0} = {1}".format(i, spec), spec.make)
    if rng.random() < 0.92:
        data = gen.gen_data(rng, spec, n=rng.choice([1, 5, 20, 40]), special=True, nanweight=False)
        gen.fill_hist(ctx, h, data, "h{0}".format(i))
    else:
        ctx.seen("unfilled")
    return h


def refusals(ctx, rng, h):
    group, fixed, prof = observe.axes(h)
    axes = group + fixed
    a = rng.choice(axes)
    for c in ("overlay", "stack", "beside", "below"):
        ctx.must_refuse("{0} twice".format(c), (TypeError,), lambda: getattr(getattr(h, c)(a), c)(a))
    for k in ("step", "line", "marker"):
        ctx.must_refuse("{0} stacked".format(k), (TypeError,), lambda: getattr(h.stack(a), k)(a))
    for c in ("beside", "below"):
        for k in ("step", "area", "bar", "line", "marker"):
            ctx.must_refuse("{0} of {1} with errors".format(k, c), (TypeError, NotImplementedError), lambda: getattr(getattr(h, c)(a), k)(a, error=True))
    for c in ("overlay", "stack"):
        ctx.must_refuse("heatmap of {0}".format(c), (TypeError,), lambda: getattr(h, c)(a).heatmap(a, a))
    if len(axes) != 1:
        ctx.must_refuse("step without an axis", (TypeError,), lambda: h.step())
    if len(axes) != 2:
        ctx.must_refuse("heatmap without axes", (TypeError,), lambda: h.heatmap())
    ctx.must_refuse("overlay of histograms", (Exception,), lambda: histbook.overlay(h, h))
    p = h.step(a)
    for f in (histbook.overlay, histbook.beside, histbook.below):
        ctx.must_refuse("unknown option", (TypeError,), lambda: f(p, bogus=1))
    ctx.seen("refused")


def run_case(ctx, rng, index):
    hs = [histogram(ctx, rng, i) for i in range(rng.choice([1, 1, 2]))]
    before = [repr(observe.content(h)) for h in hs]

    def plot(heat=True):
        while True:
            i = rng.randrange(len(hs))
            p = Plot(ctx, rng, hs[i], "h{0}".format(i))
            if heat or not p.heat:
                return p
    for _ in range(3):
        p = plot()
        show(ctx, p)
    if rng.random() < 0.1:
        frontends(ctx, rng, p)
    if rng.random() < 0.7:
        def tree(kind, depth):
            n = rng.choice([1, 2, 2, 3])
            if kind == "overlay":
                if rng.random() < 0.03:
                    n = 30
                    ctx.seen("many_plots")
                return Tree(ctx, rng, "overlay", [plot(False) for _ in range(n)])
            inner = {"beside": ["overlay", "below"], "below": ["overlay", "beside"], "grid": ["overlay"]}[kind]
            parts = []
            for _ in range(n if kind != "grid" else n + 2):
                if depth < 3 and rng.random() < 0.35:
                    parts.append(tree(rng.choice(inner), depth + 1))
                    ctx.seen("nested_combination")
                else:
                    parts.append(plot())
            return Tree(ctx, rng, kind, parts)
        t = tree(rng.choice(["overlay", "beside", "below", "grid"]), 0)
        show(ctx, t)
        if rng.random() < 0.1:
            frontends(ctx, rng, t)
        ctx.signature(t.kind, tuple(type(p).__name__ for p in t.parts))
    if rng.random() < 0.1:
        refusals(ctx, rng, hs[0])
    for b, h in zip(before, hs):
        ctx.check(repr(observe.content(h)) == b, "plotting changed the histogram")
