"""Meaning of expressions: the text evaluated as Python on the scalars of one event."""
import ast
import math

_inf = float("inf")


def _safe(f):
    def g(*args):
        try:
            return f(*args)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float("nan")
    return g


FUNCTIONS = {
    "abs": abs, "fabs": abs, "min": min, "max": max, "fmin": min, "fmax": max,
    "sqrt": _safe(math.sqrt), "exp": _safe(math.exp), "expm1": _safe(math.expm1), "exp2": lambda x: 2.0**x,
    "log": _safe(math.log), "log10": _safe(math.log10), "log2": _safe(math.log2), "log1p": _safe(math.log1p),
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "sinh": _safe(math.sinh), "cosh": _safe(math.cosh), "tanh": math.tanh,
    "arcsin": _safe(math.asin), "arccos": _safe(math.acos), "arctan": math.atan, "arctan2": math.atan2,
    "arcsinh": math.asinh, "arccosh": _safe(math.acosh), "arctanh": _safe(math.atanh),
    "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "trunc": lambda x: float(math.trunc(x)),
    "rint": lambda x: float(round(x)), "round": lambda x: float(round(x)),
    "hypot": math.hypot, "copysign": math.copysign, "sign": lambda x: (x > 0) - (x < 0),
    "deg2rad": math.radians, "rad2deg": math.degrees,
    "fmod": _safe(math.fmod), "mod": lambda x, y: x % y, "pow": lambda x, y: x**y,
    "heaviside": lambda x, mid=0.5: 0.0 if x < 0 else 1.0 if x > 0 else mid,
    "isnan": lambda x: x != x, "isinf": lambda x: x in (_inf, -_inf), "isfinite": lambda x: x == x and x not in (_inf, -_inf),
    "logaddexp": lambda x, y: max(x, y) + math.log1p(math.exp(-abs(x - y))),
    "logaddexp2": lambda x, y: max(x, y) + math.log2(1 + 2.0**(-abs(x - y))),
    "erf": math.erf, "erfc": math.erfc, "gamma": _safe(math.gamma), "lgamma": _safe(math.lgamma), "factorial": lambda x: float(math.factorial(int(round(x)))),
    "where": lambda c, x, y: x if c else y,
    "pi": math.pi, "e": math.e, "inf": _inf, "nan": float("nan"),
}

_code = {}


def _compile(text):
    out = _code.get(text)
    if out is None:
        out = _code[text] = compile(text.strip(), "<expr>", "eval")
        if len(_code) > 20000:
            _code.clear()
    return out


_known = {}


def _parsed(text):
    """(set of all names, whether it is a plain + - * of names and dyadic constants)"""
    out = _known.get(text)
    if out is None:
        tree = ast.parse(text.strip(), mode="eval")
        called = set(id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call))
        called.update(id(n.func.value) for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute))
        names = set(n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and id(n) not in called)
        exact = True
        for n in ast.walk(tree):
            if isinstance(n, (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Name, ast.Add, ast.Sub, ast.Mult, ast.USub, ast.UAdd, ast.Load)):
                continue
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and n.value * 64 == int(n.value * 64):
                continue
            exact = False
            break
        out = _known[text] = (names, exact)
        if len(_known) > 20000:
            _known.clear()
    return out


def names(text, defs=None):
    """Input fields an expression refers to, looking through the definitions."""
    out = set()
    for n in _parsed(text)[0]:
        if defs and n in defs:
            out.update(names(defs[n], defs))
        elif n not in ("pi", "e", "inf", "nan"):
            out.add(n)
    return out


EXACT_FIELDS = frozenset(["a", "b", "c", "i", "j"])


def exactarith(text, defs=None):
    """Sums and products of small dyadic numbers: every order of evaluation is exact."""
    ns, exact = _parsed(text)
    if not exact or text.count("*") > 2:
        return False
    for n in ns:
        if defs and n in defs:
            if not exactarith(defs[n], defs):
                return False
        elif n not in EXACT_FIELDS:
            return False
    return True


def value(text, row, defs=None):
    if text in row and not (defs and text in defs):
        return row[text]
    env = dict(FUNCTIONS)
    env.update(row)
    if defs:
        for n in _parsed(text)[0]:
            if n in defs:
                env[n] = value(defs[n], row, dict((k, v) for k, v in defs.items() if k != n))
    env["__builtins__"] = {}
    return eval(_compile(text), env)
