"""Random expressions, and their evaluation in Python with error bounds.

V is a number with a bound on what rounding may do to it if the arithmetic is done in another (algebraically
equal) order.  A comparison or a step function whose outcome is within that bound raises Unclear: the event is not used.
"""
import math

from hbv import pyeval

EPS = 1e-13


class Unclear(Exception):
    pass


def dyadic(x):
    return abs(x) < 2**31 and x * 2**20 == math.floor(x * 2**20)


class V(object):
    __slots__ = ("v", "e")

    def __init__(self, v, e=0.0):
        self.v, self.e = v, e

    @staticmethod
    def of(x):
        if isinstance(x, V):
            return x
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise Unclear("not a number: {0!r}".format(x))
        return V(x, 0.0 if dyadic(x) else abs(x) * EPS)

    def _new(self, v, e, exact):
        if isinstance(v, complex) or v != v or math.isinf(v) or abs(v) > 1e12:
            raise Unclear("out of range")
        if exact and e == 0.0 and dyadic(v):
            return V(v, 0.0)
        return V(v, e + EPS * (abs(v) + 1e-3))

    def __add__(self, o):
        o = V.of(o)
        return self._new(self.v + o.v, self.e + o.e + (0 if self.e == o.e == 0 else EPS * (abs(self.v) + abs(o.v))), True)
    __radd__ = __add__

    def __sub__(self, o):
        o = V.of(o)
        return self._new(self.v - o.v, self.e + o.e + (0 if self.e == o.e == 0 else EPS * (abs(self.v) + abs(o.v))), True)

    def __rsub__(self, o):
        return V.of(o) - self

    def __neg__(self):
        return V(-self.v, self.e)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = V.of(o)
        return self._new(self.v * o.v, self.e * abs(o.v) + o.e * abs(self.v) + self.e * o.e, True)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = V.of(o)
        if abs(o.v) <= 10 * o.e or o.v == 0 or abs(o.v) < 1e-3:
            raise Unclear("division by zero")
        v = self.v / o.v
        return self._new(v, self.e / abs(o.v) + o.e * abs(v / o.v) + EPS * (abs(self.v) + abs(v)), False)

    def __rtruediv__(self, o):
        return V.of(o) / self

    def _step(self, o, f):
        o = V.of(o)
        if o.v == 0:
            raise Unclear("division by zero")
        if self.e > 0 or o.e > 0:
            q = self.v / o.v
            if abs(q - round(q)) < 1e-6:
                raise Unclear("step")
            return V(f(self.v, o.v), self.e + o.e * abs(q) + EPS)
        return V(f(self.v, o.v), 0.0 if dyadic(f(self.v, o.v)) else EPS)

    def __floordiv__(self, o):
        out = self._step(o, lambda x, y: x // y)
        return V(out.v, 0.0)

    def __rfloordiv__(self, o):
        return V.of(o) // self

    def __mod__(self, o):
        return self._step(o, lambda x, y: x % y)

    def __rmod__(self, o):
        return V.of(o) % self

    def __pow__(self, o):
        o = V.of(o)
        if self.v == 0 and o.v <= 0:
            raise Unclear("0**negative")
        if self.v < 0 and (o.e > 0 or o.v != int(o.v)):
            raise Unclear("complex")
        if abs(o.v) > 6:
            raise Unclear("large power")
        v = float(self.v) ** o.v
        if o.e == 0 and o.v == int(o.v) and o.v > 0:
            return self._new(v, 0.0 if self.e == 0 else abs(o.v) * self.e * abs(v) / max(abs(self.v), 1e-3) + self.e, True)
        if abs(self.v) < 1e-2:
            raise Unclear("power of a small number")
        return self._new(v, abs(v) * (abs(o.v) * self.e / abs(self.v) + o.e * abs(math.log(abs(self.v)))) + EPS * abs(v) * 10, False)

    def __rpow__(self, o):
        return V.of(o) ** self

    def __xor__(self, o):
        o = V.of(o)
        return V(self.v ^ o.v, 0.0)     # TypeError unless both are integers

    def __rxor__(self, o):
        return V.of(o) ^ self

    def __abs__(self):
        return V(abs(self.v), self.e)

    def _d(self, o):
        o = V.of(o)
        d = self.v - o.v
        if (self.e > 0 or o.e > 0) and abs(d) <= 100 * (self.e + o.e) + 1e-9:
            raise Unclear("comparison")
        return d

    def __lt__(self, o):
        return self._d(o) < 0

    def __le__(self, o):
        return self._d(o) <= 0

    def __gt__(self, o):
        return self._d(o) > 0

    def __ge__(self, o):
        return self._d(o) >= 0

    def __eq__(self, o):
        if isinstance(o, (str, set)):
            return False
        return self._d(o) == 0

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        if self.e > 0:
            raise Unclear("membership")
        return hash(self.v)

    def __bool__(self):
        raise Unclear("truth of a number")


def smooth(f, lo=-1e6, hi=1e6, tol=1e-12):
    def g(*args):
        args = [V.of(x) for x in args]
        if any(not lo < x.v < hi for x in args):
            raise Unclear("domain")
        try:
            v = f(*[x.v for x in args])
            d = 0.0
            for i, x in enumerate(args):
                h = x.e + 1e-14 * (1 + abs(x.v))
                for s in (-h, h):
                    d += abs(f(*[y.v + (s if j == i else 0) for j, y in enumerate(args)]) - v)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Unclear("domain")
        if v != v or abs(v) > 1e9:
            raise Unclear("range")
        return V(v, 2 * d + tol * (1 + abs(v)))
    return g


def step(f):
    def g(x):
        x = V.of(x)
        if x.e > 0 and abs(2 * x.v - round(2 * x.v)) < 1e-6:
            raise Unclear("step")
        return V(f(x.v), 0.0)
    return g


def select(f):
    def g(*args):
        args = [V.of(x) for x in args]
        return V(f(x.v for x in args), max(x.e for x in args))
    return g


def _sign(x):
    x = V.of(x)
    if x.e > 0 and abs(x.v) <= 100 * x.e + 1e-9:
        raise Unclear("step")
    return V((x.v > 0) - (x.v < 0))


def _heaviside(x, mid=0.5):
    s = _sign(x).v
    mid = V.of(mid)
    return V(0.0) if s < 0 else V(1.0) if s > 0 else mid


def _copysign(x, y):
    x, y = V.of(x), V.of(y)
    s = _sign(y).v
    if s == 0:
        raise Unclear("sign of zero")
    return V(math.copysign(x.v, y.v), x.e)


def _fmod(x, y):
    x, y = V.of(x), V.of(y)
    return x._step(y, math.fmod)


def _where(c, x, y):
    if not isinstance(c, bool):
        raise Unclear("condition")
    return V.of(x) if c else V.of(y)


ENV = {"abs": abs, "fabs": abs, "min": select(min), "max": select(max), "fmin": select(min), "fmax": select(max),
       "where": _where, "sign": _sign, "heaviside": _heaviside, "copysign": _copysign, "fmod": _fmod,
       "mod": lambda x, y: V.of(x) % y, "pow": lambda x, y: V.of(x) ** y,
       "pi": V(math.pi, 1e-15), "e": V(math.e, 1e-15),
       "isnan": lambda x: V.of(x).v != V.of(x).v, "isfinite": lambda x: not math.isinf(V.of(x).v), "isinf": lambda x: math.isinf(V.of(x).v)}
for _n in ("floor", "ceil", "trunc", "rint", "round"):
    ENV[_n] = step(pyeval.FUNCTIONS[_n])
for _n in ("sin", "cos", "arctan", "arcsinh", "tanh", "hypot", "arctan2", "deg2rad", "rad2deg", "logaddexp", "logaddexp2"):
    ENV[_n] = smooth(pyeval.FUNCTIONS[_n], -1e3, 1e3)
for _n in ("sinh", "cosh", "exp", "expm1", "exp2"):
    ENV[_n] = smooth(pyeval.FUNCTIONS[_n], -15, 15)
ENV["arctan2"] = smooth(math.atan2, 1e-3, 1e3)
ENV["tan"] = smooth(math.tan, -1.5, 1.5)
ENV["sqrt"] = smooth(math.sqrt, 1e-3, 1e6)
for _n in ("log", "log10", "log2"):
    ENV[_n] = smooth(getattr(math, _n), 1e-3, 1e6)
ENV["log1p"] = smooth(math.log1p, -0.99, 1e6)
ENV["arcsin"] = smooth(math.asin, -0.99, 0.99)
ENV["arccos"] = smooth(math.acos, -0.99, 0.99)
ENV["arctanh"] = smooth(math.atanh, -0.99, 0.99)
ENV["arccosh"] = smooth(math.acosh, 1.01, 1e3)
ENV["erf"] = smooth(math.erf, -5, 5, tol=1e-8)
ENV["erfc"] = smooth(math.erfc, -5, 5, tol=1e-8)
ENV["gamma"] = smooth(math.gamma, 0.5, 6, tol=1e-7)
ENV["lgamma"] = smooth(math.lgamma, 0.5, 20, tol=1e-7)
ENV["factorial"] = lambda x: V(pyeval.FUNCTIONS["factorial"](V.of(x).v)) if V.of(x).e == 0 and V.of(x).v in (0, 1, 2, 3, 4, 5) else _unclear()
# spellings of the math and numpy modules: name there -> name in expressions
MATH = {"acos": "arccos", "acosh": "arccosh", "asin": "arcsin", "asinh": "arcsinh", "atan2": "arctan2", "atan": "arctan", "atanh": "arctanh", "degrees": "rad2deg", "radians": "deg2rad"}
MATH.update((n, n) for n in "ceil copysign cos cosh erfc erf exp expm1 factorial floor fmod gamma hypot isinf isnan lgamma log10 log1p log pow sinh sin sqrt tanh tan trunc".split())
NUMPY = {"absolute": "abs", "degrees": "rad2deg", "radians": "deg2rad", "maximum": "fmax", "minimum": "fmin", "power": "pow", "remainder": "mod"}
NUMPY.update((n, n) for n in ("arccos arccosh arcsin arcsinh arctan2 arctan arctanh ceil copysign cos cosh deg2rad exp2 exp expm1 floor fmod heaviside hypot isfinite isinf isnan log10 log1p log2"
                              " logaddexp2 logaddexp log rad2deg rint round sign sinh sin sqrt tanh tan trunc where").split())
QUALIFIED = {}
for _m, _names in (("math", MATH), ("numpy", NUMPY)):
    ENV[_m] = type(_m, (), dict((a, staticmethod(ENV[b])) for a, b in _names.items()))
    for _a, _b in sorted(_names.items()):
        QUALIFIED.setdefault(_b, []).append(_m + "." + _a)
ENV["conj"] = lambda x: V.of(x)


def _unclear():
    raise Unclear("domain")


def evaluate(text, row, defs=None):
    """V, bool or str; Unclear if the event can't be used; other errors as Python raises them."""
    env = dict(ENV)
    for n, x in row.items():
        env[n] = V(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x
    if defs:
        for n, d in defs.items():
            if n in pyeval._parsed(text)[0]:
                env[n] = evaluate(d, row) if isinstance(d, str) else V.of(d)
    env["__builtins__"] = {}
    try:
        return eval(pyeval._compile(text), env)
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Unclear("undefined")


# ------------------------------------------------------------------ generation

FIELDS = ["a", "b", "c", "i", "j"]
CONSTS = ["1", "2", "3", "0.5", "0.25", "4", "10", "0", "1.5", "-1", "-2", "-0.5", "2.0", "7"]
SMOOTH1 = ["conj", "sin", "cos", "exp", "sqrt", "log", "arctan", "tanh", "arcsinh", "expm1", "log1p", "log10", "log2", "exp2", "sinh", "cosh", "tan",
           "arcsin", "arccos", "arctanh", "arccosh", "erf", "erfc", "gamma", "lgamma", "deg2rad", "rad2deg"]
STEP1 = ["floor", "ceil", "trunc", "rint", "round", "sign", "heaviside", "abs", "fabs"]
FCN2 = ["hypot", "arctan2", "fmin", "fmax", "min", "max", "mod", "fmod", "copysign", "pow", "logaddexp", "logaddexp2"]


def named(rng, f):
    """A spelling of a function."""
    return rng.choice(QUALIFIED[f]) if f in QUALIFIED and rng.random() < 0.15 else f


def paren(rng, text):
    return "(" + text + ")"


def monomial(rng, atoms):
    """A product of a few of few atoms over a product of a few others: terms that may be merged, and ones that are nearly alike."""
    top = [rng.choice(atoms) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
    bottom = [rng.choice(atoms) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    if rng.random() < 0.4:
        top.insert(rng.randrange(len(top) + 1), rng.choice(["2", "3", "0.5", "4", "-1"]))
    if rng.random() < 0.15:
        bottom.append(rng.choice(["2", "0.5", "4"]))
    out = "*".join(x if len(x) == 1 else "(" + x + ")" for x in top) or rng.choice(["1", "2"])
    if len(bottom) > 1 and rng.random() < 0.5:
        return out + "/({0})".format("*".join("({0})".format(x) for x in bottom))
    return out + "".join("/" + (x if len(x) == 1 else "(" + x + ")") for x in bottom)


def poly(rng, names):
    atoms = rng.sample(names, min(len(names), rng.choice([2, 2, 3])))
    if rng.random() < 0.3:
        atoms.append(rng.choice(["{0} + 1", "{0} - {1}", "abs({0})", "{0}**2", "min({0}, {1})"]).format(*(atoms + atoms)[:2]))
    out = monomial(rng, atoms)
    for _ in range(rng.choice([1, 1, 2, 3])):
        term = monomial(rng, atoms)
        out = rng.choice(["{0} + {1}", "{0} + {1}", "{0} - {1}", "{1} - ({0})", "({0} + {1})", "({0})*({1})" if len(out) < 40 else "{0} - {1}"]).format(out, term)
    return out


def num(rng, depth, names=FIELDS, smooth=True):
    r = rng.random()
    if depth <= 0 or r < 0.12:
        return rng.choice(names) if rng.random() < 0.7 else rng.choice(CONSTS)
    if depth >= 2 and rng.random() < 0.2:
        return poly(rng, names)
    sub = lambda: num(rng, depth - 1, names, smooth)
    if r < 0.62:
        op = rng.choice(["+", "+", "-", "-", "*", "*", "/"])
        left, right = sub(), sub()
        if rng.random() < 0.15:
            right = left
        if rng.random() < 0.75:
            left = paren(rng, left)
        return "{0} {1} {2}".format(left, op, paren(rng, right))
    elif r < 0.68:
        return "-({0})".format(sub())
    elif r < 0.76:
        base = sub()
        if not pyeval.names(base):
            return "({0})**2".format(base)
        return "({0})**{1}".format(base, rng.choice(["2", "2", "3", "4", "-1", "-2", "-3", "5", "1", "0.5", "1.5", "2.0", "0"]))
    elif r < 0.80:
        return "({0}) {1} ({2})".format(sub(), rng.choice(["//", "%"]), rng.choice(["2", "0.5", "3", "b", "c", "a + 4"]))
    elif r < 0.88 and smooth:
        f = rng.choice(SMOOTH1)
        arg = sub()
        if f in ("sqrt", "log", "log10", "log2", "gamma", "lgamma") and rng.random() < 0.7:
            arg = "abs({0}) + 1".format(arg)
        elif f in ("arcsin", "arccos", "arctanh") and rng.random() < 0.7:
            arg = "sin({0})".format(arg)
        return "{0}({1})".format(named(rng, f), arg)
    elif r < 0.92:
        return "{0}({1})".format(named(rng, rng.choice(STEP1)), sub())
    elif r < 0.97:
        f = rng.choice(FCN2)
        args = [sub(), sub()] + ([sub()] * rng.choice([0, 1, 1, 2]) if f in ("min", "max") else [])
        return "{0}({1})".format(named(rng, f), ", ".join(args))
    else:
        return "{3}({0}, {1}, {2})".format(boolean(rng, 1, names), sub(), sub(), named(rng, "where"))


def relation(rng, depth, names=FIELDS):
    r = rng.random()
    sub = lambda: num(rng, depth, names)
    if r < 0.55:
        return "{0} {1} {2}".format(sub(), rng.choice(["<", "<=", ">", ">=", "==", "!="]), sub())
    elif r < 0.67:
        return "{0} {1} {2} {3} {4}".format(rng.choice(["0", "-1", "b", "a"]), rng.choice(["<", "<="]), sub(), rng.choice(["<", "<="]), rng.choice(["2", "c", "1"]))
    elif r < 0.78:
        return "{0} {1} {{{2}}}".format(rng.choice(["i", "j", "i + j", "a", "2*a"]), rng.choice(["in", "not in"]), ", ".join(rng.sample(["0", "1", "2", "3", "0.5", "-1", "1.5"], rng.choice([1, 2, 3]))))
    elif r < 0.86:
        return "{0} {1} {{{2}}}".format(rng.choice(["s", "t"]), rng.choice(["in", "not in"]), ", ".join(rng.sample(["'one'", "'two'", "'three'", "''"], rng.choice([1, 2]))))
    elif r < 0.93:
        return "s {0} {1}".format(rng.choice(["==", "!=", "<", ">=", ">", "<="]), rng.choice(["'one'", "'two'", "t"]))
    else:
        return "'two' {0} {1}".format(rng.choice(["==", "!=", "<", ">="]), rng.choice(["s", "t"]))


def boolean(rng, depth, names=FIELDS):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice(["p", "q"]) if rng.random() < 0.3 else relation(rng, rng.choice([0, 0, 1, 2]), names)
    sub = lambda: "({0})".format(boolean(rng, depth - 1, names))
    if r < 0.55:
        return "{0} and {1}".format(sub(), sub())
    elif r < 0.75:
        return "{0} or {1}".format(sub(), sub())
    elif r < 0.88:
        return "not {0}".format(sub())
    elif r < 0.94:
        return "{0} and {1} or {2}".format(sub(), sub(), sub())
    else:
        return "{0} or {1} and {2} and {3}".format(sub(), sub(), sub(), sub())


# things the language may refuse but must not misread
ZOO_NUM = ["a if a > b else b", "a @ b", "[a, b]", "a[0]", "a.real", "(a, b)", "lambda q: q", "a & 3", "i | 1", "~i", "i << 1", "i >> 1", "i ^ 3", "i ^ j", "7 ^ 3", "a - (5 ^ 3)", "a - (5 | 2)", "a - (5 & 6)",
           "max(a, b, key=abs)", "log(a, 10)", "round(a, 1)", "pow(a, 2, 5)", "sin(a, b)", "sqrt(a, b)", "hypot(a, b, c)", "unknown(a)", "sum(a)", "len(s)", "a + (b > c)", "(a > b)*2", "a + p", "-p",
           "1", "2 + 3", "pi", "e", "2*pi", "abs(-3)", "a == b == c", "float(a)", "int(a)", "a + True", "a*None", "a + 'x'", "s + t", "s*2", "divmod(a, 2)", "2**3**2", "-2**2", "2**-1", "7 // 2", "7 % 3", "-7 // 2", "-7 % 3",
           "7.5 // 2", "1/2", "1/4*a", "2/0.5/a", "a/2/2", "a - b - c", "a - (b - c)", "a/(b/(c + 5))", "a**2**0.5", "math.sqrt(abs(a))", "numpy.sqrt(abs(a))", "math.pow(abs(a), 2)", "i // 2", "i % 2", "-i // 2", "-i % 3", "5 // (i + 3)",
           "1e3*a", "0x10 + a", "1_000 + a", "a*1.0", "a*(1 - 1)", "a - a", "(a + b)*(a - b)", "(a + b)**2", "(a - b)**3/4", "a*b/a", "a/a", "(2*a + 4)/2", "2*(a + 3*(b - 2*(c - 1)))", "-(-(-a))", "+a", "a - -b", "not a"]
ZOO_BOOL = ["True", "False", "p == True", "p == q", "p != q", "p is q", "p and True", "a > b > c", "a < b == c", "a in [1, 2]", "a in (1, 2)", "s in 'one two'", "'n' in s", "s == t == 'one'", "isnan(a)", "isnan(a) and p", "isfinite(a) or q",
            "not not p", "not (p and not q)", "not (a > b or a < b)", "p and not p", "p or not p", "a == 1 or a == 1", "a > 1 and not a > 1", "i in {1, 1, 2}", "i in {}", "i not in {}", "1 in {1}", "a in {b}", "p & q", "p | q", "~p", "p ^ q",
            "a == a", "a != a", "a < a", "a <= a", "1 < 2", "p < q", "(p and q) == p", "a > b and (a > c or a > 1) and (b > 0 or p)", "all(p)", "p if q else p", "s is None", "None == p", "a and b", "i or j", "where(p, q, p)"]


def spellings():
    """A call of every function in every spelling, inside its domain."""
    out = []
    for f in sorted(set(ENV) - {"pi", "e", "math", "numpy"}):
        if f in ("sqrt", "log", "log10", "log2", "log1p", "gamma", "lgamma"):
            args = "abs(a)/2 + 0.75"
        elif f in ("arcsin", "arccos", "arctanh"):
            args = "a/8"
        elif f == "arccosh":
            args = "abs(a) + 1.5"
        elif f == "factorial":
            args = "i*i % 6"
        elif f == "where":
            args = "p, a, b"
        elif f == "arctan2":
            args = "abs(a) + 1, abs(b) + 0.5"
        elif f == "heaviside":
            args = "a, 0.25"
        elif f == "pow":
            args = "abs(a) + 1, 3"
        elif f in ("mod", "fmod"):
            args = "a, 1.5"
        elif f in FCN2:
            args = "a, b"
        elif f == "tan":
            args = "a/4"
        else:
            args = "a"
        for n in [f] + QUALIFIED.get(f, []):
            out.append(("{0}({1})".format(n, args), f in ("isnan", "isinf", "isfinite")))
    return out


SPELLINGS = spellings()
