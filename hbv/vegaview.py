"""Reads a Vega-Lite document the way a renderer does: which marks are drawn where."""
import re

from hbv.core import Violation

CHANNELS = ("x", "y", "y2", "color", "column", "row", "order")


class Unit(object):
    """One mark type drawn once for each of the rows."""
    def __init__(self, mark, encoding, rows, options):
        self.mark, self.encoding, self.rows, self.options = mark, encoding, rows, options

    def field(self, channel):
        return self.encoding[channel]["field"]

    def drawn(self):
        """One dict of channel: value for each row."""
        out = []
        for r in self.rows:
            d = {}
            for c in CHANNELS:
                if c in self.encoding:
                    f = self.encoding[c].get("field")
                    if f not in r:
                        raise Violation("encoding of {0} refers to field {1!r}, which is not in the row {2}".format(c, f, r))
                    d[c] = r[f]
            out.append(d)
        return out


def _calculate(expr, row):
    """The few JavaScript constructions that occur."""
    text = expr.replace("===", "==").replace("!==", "!=")
    names = {}

    def datum(m):
        n = m.group(1)
        key = "_v{0}".format(len(names))
        names[key] = row.get(n)        # undefined
        return key
    # outside of string literals only
    parts = re.split(r"('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\")", text)
    for i in range(0, len(parts), 2):
        parts[i] = re.sub(r"datum\.([A-Za-z_][A-Za-z_0-9]*)", datum, parts[i])
        parts[i] = re.sub(r"datum\[\s*$", "_d[", parts[i])
        parts[i] = re.sub(r"\bif\(", "_if(", parts[i])
    names["_if"] = lambda c, x, y: x if c else y
    names["_d"] = row
    try:
        return eval("".join(parts), {"__builtins__": {}}, names)
    except TypeError:
        return float("nan")
    except Exception as err:
        raise Violation("cannot evaluate the calculation {0!r} on {1}: {2}".format(expr, row, err))


def transform(rows, transforms):
    for t in transforms or []:
        if "filter" in t:
            f = t["filter"]
            if isinstance(f, dict) and "equal" in f:
                rows = [r for r in rows if r.get(f["field"]) == f["equal"]]
            elif isinstance(f, dict) and "oneOf" in f:
                rows = [r for r in rows if r.get(f["field"]) in f["oneOf"]]
            elif isinstance(f, str):
                rows = [r for r in rows if _calculate(f, r)]
            else:
                raise Violation("filter {0}".format(f))
        elif "calculate" in t:
            rows = [dict(r, **{t["as"]: _calculate(t["calculate"], r)}) for r in rows]
        else:
            raise Violation("transformation {0}".format(t))
    return rows


def read(doc, data=None, inherited=()):
    """('unit', Unit) or ('layer'|'hconcat'|'vconcat', [...]); layers in layers are merged."""
    if "data" in doc:
        data = doc["data"]["values"]
    trans = list(inherited) + list(doc.get("transform", []))
    for k in ("layer", "hconcat", "vconcat"):
        if k in doc:
            out = []
            for x in doc[k]:
                sub = read(x, data, trans)
                if k == "layer" and sub[0] == "layer":
                    out.extend(sub[1])
                else:
                    out.append(sub)
            return (k, out)
    if data is None:
        raise Violation("a view without data: {0}".format(doc))
    mark = doc["mark"]
    if isinstance(mark, dict):
        mark = (mark["type"], mark.get("interpolate"))
    else:
        mark = (mark, None)
    return ("unit", Unit(mark, doc["encoding"], transform(data, trans), dict((k, doc.get(k)) for k in ("width", "height", "title"))))
