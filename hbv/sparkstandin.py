"""Stand-in for the part of PySpark that a DataFrame-filling library can use (PySpark is not installed): columns are
expressions evaluated row by row with Spark SQL's semantics (null propagation and three-valued logic, NaN equal to
itself and above every number, 64-bit integers, division by zero is null, % with the sign of the dividend, floor and
ceil give integers, sums over groups in any order), lazily, when a DataFrame is collected."""
import math
import sys
import threading
import time
import types

LONGMAX, LONGMIN = 2**63 - 1, -2**63


class AnalysisException(Exception):
    pass


class Lacking(BaseException):
    """The code under test uses a part of PySpark that this stand-in does not have: no verdict."""


class Fault(Exception):
    """An injected failure of a query."""


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def wrap(x):
    return (x - LONGMIN) % 2**64 + LONGMIN


def tolong(x):
    """Java's cast of a double to a long."""
    if x != x:
        return 0
    if x >= LONGMAX:
        return LONGMAX
    if x <= LONGMIN:
        return LONGMIN
    return int(x)


def arithmetic(f):
    def out(x, y):
        if x is None or y is None:
            return None
        if isinstance(x, str) and not isinstance(y, str):
            x = todouble(x)
        elif isinstance(y, str) and not isinstance(x, str):
            y = todouble(y)
        if not isnum(x) or not isnum(y):
            raise AnalysisException("cannot resolve the arithmetic of {0!r} and {1!r} due to data type mismatch".format(x, y))
        v = f(x, y)
        if isinstance(v, int):
            return wrap(v)
        return v
    return out


def todouble(x):
    if x is None:
        return None
    if isinstance(x, str):
        t = x.strip().lower()
        if t in ("nan", "inf", "+inf", "-inf", "infinity", "+infinity", "-infinity"):
            return float(t)
        try:
            return float(t)
        except ValueError:
            return None
    return float(x)


def order(x):
    """NaN is above every other number; -0.0 equals 0.0."""
    return (1, 0) if x != x else (0, x)


def comparison(f):
    def out(x, y):
        if x is None or y is None:
            return None
        if isinstance(x, str) != isinstance(y, str):
            x, y = (todouble(v) if isinstance(v, str) else v for v in (x, y))
            if x is None or y is None:
                return None
        if isinstance(x, bool) != isinstance(y, bool):
            raise AnalysisException("cannot resolve the comparison of {0!r} with {1!r} due to data type mismatch".format(x, y))
        if isinstance(x, str) or isinstance(x, bool):
            return f(x, y)
        return f(order(x), order(y))
    return out


def boolean(x):
    if x is not None and not isinstance(x, bool):
        raise AnalysisException("{0!r} is not of boolean type".format(x))
    return x


def land(x, y):
    x, y = boolean(x), boolean(y)
    if x is False or y is False:
        return False
    return None if x is None or y is None else True


def lor(x, y):
    x, y = boolean(x), boolean(y)
    if x is True or y is True:
        return True
    return None if x is None or y is None else False


def lnot(x):
    x = boolean(x)
    return None if x is None else not x


def divide(x, y):
    if x is None or y is None:
        return None
    x, y = (todouble(v) if isinstance(v, str) else v for v in (x, y))
    if x is None or y is None:
        return None
    if not isnum(x) or not isnum(y):
        raise AnalysisException("cannot resolve the quotient of {0!r} and {1!r} due to data type mismatch".format(x, y))
    x, y = float(x), float(y)
    return None if y == 0 else x / y


def remainder(x, y):
    if y == 0:
        return None
    if isinstance(x, int) and isinstance(y, int):
        return abs(x) % abs(y) * (-1 if x < 0 else 1)
    x, y = float(x), float(y)
    if x != x or y != y or math.isinf(x):
        return float("nan")
    return math.fmod(x, y)


def power(x, y):
    if x is None or y is None:
        return None
    x, y = float(x), float(y)
    try:
        v = math.pow(x, y)
    except ValueError:
        return float("nan") if x != 0 else float("inf")
    except OverflowError:
        return float("inf")
    return v


def guarded(f):
    def out(x):
        if x is None:
            return None
        if isinstance(x, bool):
            raise AnalysisException("numeric type required")
        x = todouble(x)
        if x is None:
            return None
        try:
            return f(x)
        except OverflowError:
            return float("inf")
        except ValueError:
            return float("nan")
    return out


class Column(object):
    def __init__(self, fcn, name="?", branches=None, aggregate=None, elements=None):
        self._fcn, self._name, self._branches, self._aggregate, self._elements = fcn, name, branches, aggregate, elements

    def __repr__(self):
        return "Column<{0}>".format(self._name)

    def __bool__(self):
        raise ValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not' when building DataFrame boolean expressions.")
    __nonzero__ = __bool__

    def __contains__(self, item):
        raise ValueError("Cannot apply 'in' operator against a column: please use 'contains' in a string column or 'array_contains' function for an array column.")

    def __iter__(self):
        raise TypeError("Column is not iterable")

    __hash__ = None

    def alias(self, *names):
        if len(names) != 1 or not isinstance(names[0], str):
            raise TypeError("alias takes one name")
        return Column(self._fcn, names[0], None, self._aggregate, self._elements)
    name = alias

    def cast(self, kind):
        kind = str(getattr(kind, "typeName", lambda: kind)()).lower()
        if kind in ("double", "float"):
            return Column(lambda r: todouble(self._fcn(r)), self._name)
        if kind in ("long", "bigint", "int", "integer", "short", "byte"):
            def tolongs(r):
                x = self._fcn(r)
                x = todouble(x) if isinstance(x, str) else x
                return None if x is None else int(x) if isinstance(x, (bool, int)) else tolong(x)
            return Column(tolongs, self._name)
        if kind in ("boolean", "bool"):
            return Column(lambda r: None if self._fcn(r) is None else bool(self._fcn(r)), self._name)
        if kind == "string":
            return Column(lambda r: None if self._fcn(r) is None else str(self._fcn(r)), self._name)
        raise Lacking("cast to {0}".format(kind))
    astype = cast

    def isin(self, *values):
        if len(values) == 1 and isinstance(values[0], (list, set, tuple, frozenset)):
            values = list(values[0])
        values = [lit(v) for v in values]
        eq = comparison(lambda x, y: x == y)

        def fcn(r):
            x = self._fcn(r)
            if x is None:
                return None
            got = [eq(x, v._fcn(r)) for v in values]
            return True if any(g is True for g in got) else None if any(g is None for g in got) else False
        return Column(fcn, "isin")

    def between(self, low, high):
        return (self >= low) & (self <= high)

    def isNull(self):
        return Column(lambda r: self._fcn(r) is None, "isnull")

    def isNaN(self):
        return Column(lambda r: isnan(self._fcn(r)), "isnan")

    def getField(self, name):
        return Column(lambda r: None if self._fcn(r) is None else self._fcn(r)[name], str(name))
    getItem = __getitem__ = getField

    def isNotNull(self):
        return Column(lambda r: self._fcn(r) is not None, "isnotnull")

    def eqNullSafe(self, other):
        other = lit(other)
        eq = comparison(lambda x, y: x == y)
        return Column(lambda r: self._fcn(r) is None if other._fcn(r) is None else eq(self._fcn(r), other._fcn(r)) is True, "<=>")

    def when(self, condition, value):
        if not isinstance(condition, Column):
            raise TypeError("condition should be a Column")
        if self._branches is None:
            raise TypeError("when() can only be applied on a Column previously generated by when() function")
        return when_(self._branches[0] + [(condition, lit(value))], None)

    def otherwise(self, value):
        if self._branches is None or self._branches[1] is not None:
            raise TypeError("otherwise() can only be applied on a Column previously generated by when()")
        return when_(self._branches[0], lit(value))


def when_(branches, other):
    def fcn(r):
        for c, v in branches:
            if boolean(c._fcn(r)) is True:
                return v._fcn(r)
        return None if other is None else other._fcn(r)
    return Column(fcn, "CASE", branches=(branches, other))


def binary(name, op):
    def method(self, other):
        other = lit(other)
        return Column(lambda r: op(self._fcn(r), other._fcn(r)), name)

    def reverse(self, other):
        other = lit(other)
        return Column(lambda r: op(other._fcn(r), self._fcn(r)), name)
    return method, reverse


for _n, _op in (("add", arithmetic(lambda x, y: x + y)), ("sub", arithmetic(lambda x, y: x - y)), ("mul", arithmetic(lambda x, y: x * y)),
                ("truediv", divide), ("div", divide), ("mod", arithmetic(remainder)), ("pow", power), ("and", land), ("or", lor)):
    _m, _r = binary(_n, _op)
    setattr(Column, "__{0}__".format(_n), _m)
    setattr(Column, "__r{0}__".format(_n), _r)
for _n, _op in (("eq", lambda x, y: x == y), ("ne", lambda x, y: x != y), ("lt", lambda x, y: x < y), ("le", lambda x, y: x <= y), ("gt", lambda x, y: x > y), ("ge", lambda x, y: x >= y)):
    setattr(Column, "__{0}__".format(_n), binary(_n, comparison(_op))[0])
Column.__neg__ = lambda self: Column(lambda r: arithmetic(lambda x, y: y - x)(self._fcn(r), 0) if isinstance(self._fcn(r), int) else None if self._fcn(r) is None else -self._fcn(r), "-")
Column.__invert__ = lambda self: Column(lambda r: lnot(self._fcn(r)), "NOT")


# ------------------------------------------------------------------ pyspark.sql.functions

def lit(value):
    if isinstance(value, Column):
        return value
    if type(value).__module__ == "numpy":
        raise AttributeError("'{0}' object has no attribute '_get_object_id'".format(type(value).__name__))
    if isinstance(value, (set, frozenset, list, tuple, dict)):
        raise RuntimeError("Unsupported literal type {0}".format(type(value)))
    if value is not None and not isinstance(value, (bool, int, float, str)):
        raise RuntimeError("Unsupported literal type {0}".format(type(value)))
    return Column(lambda r: value, repr(value))


def col(name):
    if isinstance(name, Column):
        return name
    if not isinstance(name, str):
        raise TypeError("Invalid argument, not a string or column: {0!r} of type {1}. For column literals, use 'lit', 'array', 'struct' or 'create_map' function.".format(name, type(name)))

    def fcn(r):
        if name not in r:
            raise AnalysisException("cannot resolve '`{0}`' given input columns {1}".format(name, sorted(r)))
        return r[name]
    return Column(fcn, name)


def function(f, name):
    def out(*args):
        args = [col(x) for x in args]
        return Column(lambda r: f(*[x._fcn(r) for x in args]), name)
    return out


def one(f, name):
    g = function(guarded(f), name)
    return lambda x: g(x)


def floorlike(f):
    def out(x):
        if x is None:
            return None
        x = todouble(x) if isinstance(x, str) else x
        if isinstance(x, bool):
            raise AnalysisException("floor of a boolean")
        if isinstance(x, int) or x is None:
            return x
        return tolong(float(f(x)) if x == x and not math.isinf(x) else x)
    return out


def extreme(f):
    def out(*args):
        args = [x for x in args if x is not None]
        if not args:
            return None
        if any(isinstance(x, float) for x in args) and any(isinstance(x, int) for x in args):
            args = [todouble(x) for x in args]
        return f(args, key=order) if not isinstance(args[0], str) else f(args)
    return out


def extremefcn(f, name):
    g = function(extreme(f), name)

    def out(*cols):
        if len(cols) < 2:
            raise ValueError("{0} should take at least two columns".format(name))
        return g(*cols)
    return out


def halfup(x, scale):
    if x is None or isinstance(x, int):
        return x
    if x != x or math.isinf(x):
        return x
    import decimal
    return float(decimal.Decimal(repr(x)).quantize(decimal.Decimal(1).scaleb(-scale), rounding=decimal.ROUND_HALF_UP))


def logarithm(f, low=0.0):
    def out(x):
        if x is None:
            return None
        x = float(x)
        return None if x <= low else f(x) if not math.isinf(x) else x
    return out


def log(arg1, arg2=None):
    if arg2 is None:
        return function(logarithm(math.log), "log")(arg1)
    return function(logarithm(lambda x: math.log(x, arg1)), "log")(arg2)


def nanvl(x, y):
    def f(u, v):
        u, v = todouble(u), todouble(v)
        return v if u is not None and u != u else u
    return function(f, "nanvl")(x, y)


def rint(x):
    r = math.floor(x)
    d = x - r
    return float(r if d < 0.5 or d == 0.5 and r % 2 == 0 else r + 1)


def factorial(x):
    if x is None:
        return None
    x = int(x)
    return math.factorial(x) if 0 <= x <= 20 else None


def shift(f):
    def out(c, n):
        if not isinstance(n, int):
            raise TypeError("number of bits must be an int")
        return function(lambda x: None if x is None else wrap(f(int(x), n)), "shift")(c)
    return out


def abs_(x):
    if x is None:
        return None
    if isinstance(x, bool) or isinstance(x, str):
        raise AnalysisException("abs of {0!r}".format(x))
    return abs(x)


def when(condition, value):
    if not isinstance(condition, Column):
        raise TypeError("condition should be a Column")
    return when_([(condition, lit(value))], None)


def isnan(x):
    if isinstance(x, bool):
        raise AnalysisException("cannot resolve 'isnan' due to data type mismatch: boolean")
    x = todouble(x)
    return x is not None and x != x


def struct(*cols):
    if len(cols) == 1 and isinstance(cols[0], (list, set)):
        cols = list(cols[0])
    if not cols:
        raise AnalysisException("cannot resolve 'named_struct()' due to data type mismatch")
    cols = [col(c) for c in cols]
    names = ["col{0}".format(i + 1) if c._name in ("?", "CASE") else c._name for i, c in enumerate(cols)]
    return Column(lambda r: Row((c._fcn(r) for c in cols), names), "struct", elements=cols)


def aggregated(f, name):
    def out(c):
        c = lit(1) if isinstance(c, str) and c == "*" and name == "count" else col(c)
        return Column(None, "{0}({1})".format(name, c._name), aggregate=lambda rows: f([v for v in (c._fcn(r) for r in rows) if v is not None]))
    return out


def total(values):
    if not values:
        return None
    if any(isinstance(v, (bool, str)) for v in values):
        values = [todouble(v) for v in values]
    if all(isinstance(v, int) for v in values):
        return wrap(sum(values))
    out = 0.0
    for v in values:
        out += v
    return out


FUNCTIONS = {
    "lit": lit, "col": col, "column": col, "when": when, "struct": struct, "log": log, "nanvl": nanvl,
    "abs": function(abs_, "abs"), "greatest": extremefcn(max, "greatest"), "least": extremefcn(min, "least"),
    "floor": function(floorlike(math.floor), "floor"), "ceil": function(floorlike(math.ceil), "ceil"),
    "round": lambda c, scale=0: function(lambda x: halfup(x, scale), "round")(c), "rint": one(rint, "rint"),
    "isnan": function(isnan, "isnan"), "isnull": function(lambda x: x is None, "isnull"),
    "log10": function(logarithm(math.log10), "log10"), "log2": function(logarithm(math.log2), "log2"), "log1p": function(logarithm(math.log1p, -1.0), "log1p"),
    "pow": lambda x, y: function(power, "pow")(*[lit(v) if isnum(v) else v for v in (x, y)]), "factorial": function(factorial, "factorial"),
    "hypot": lambda x, y: function(lambda u, v: None if u is None or v is None else math.hypot(u, v), "hypot")(*[lit(v) if isnum(v) else v for v in (x, y)]),
    "atan2": lambda x, y: function(lambda u, v: None if u is None or v is None else math.atan2(u, v), "atan2")(*[lit(v) if isnum(v) else v for v in (x, y)]),
    "shiftLeft": shift(lambda x, n: x << n), "shiftRight": shift(lambda x, n: x >> n),
    "shiftleft": shift(lambda x, n: x << n), "shiftright": shift(lambda x, n: x >> n),
    "toDegrees": one(math.degrees, "degrees"), "toRadians": one(math.radians, "radians"), "degrees": one(math.degrees, "degrees"), "radians": one(math.radians, "radians"),
    "signum": one(lambda x: float((x > 0) - (x < 0)), "signum"), "coalesce": function(lambda *x: next((v for v in x if v is not None), None), "coalesce"),
    "sum": aggregated(total, "sum"), "count": aggregated(len, "count"),
    "avg": aggregated(lambda v: None if not v else float(total(v)) / len(v), "avg"), "mean": aggregated(lambda v: None if not v else float(total(v)) / len(v), "avg"),
    "max": aggregated(lambda v: max(v, key=order) if v else None, "max"), "min": aggregated(lambda v: min(v, key=order) if v else None, "min"),
}
for _n in ("acos", "asin", "atan", "cos", "cosh", "exp", "expm1", "sin", "sinh", "sqrt", "tan", "tanh", "acosh", "asinh", "atanh"):
    FUNCTIONS[_n] = one(getattr(math, _n), _n)
FUNCTIONS["bround"] = lambda c, scale=0: function(lambda x: x if x is None or isinstance(x, int) else float(round(x, scale)), "bround")(c)
FUNCTIONS["pmod"] = lambda x, y: function(arithmetic(lambda u, v: None if v == 0 else u % v), "pmod")(*[lit(v) if isnum(v) else v for v in (x, y)])
FUNCTIONS["ifnull"] = FUNCTIONS["nvl"] = FUNCTIONS["coalesce"]
FUNCTIONS["power"], FUNCTIONS["ln"], FUNCTIONS["ceiling"], FUNCTIONS["sign"] = FUNCTIONS["pow"], log, FUNCTIONS["ceil"], FUNCTIONS["signum"]
FUNCTIONS["isnotnull"] = function(lambda x: x is not None, "isnotnull")
FUNCTIONS["array"] = lambda *cols: function(lambda *x: list(x), "array")(*(cols[0] if len(cols) == 1 and isinstance(cols[0], (list, tuple)) else cols))
FUNCTIONS["negate"] = lambda c: -col(c)


# ------------------------------------------------------------------ pyspark.sql

class Row(tuple):
    def __new__(cls, values=(), names=()):
        out = tuple.__new__(cls, values)
        out.__fields__ = list(names)
        return out

    def __repr__(self):
        return "Row{0}".format(tuple.__repr__(self))

    def __getitem__(self, item):
        if isinstance(item, str):
            if item not in self.__fields__:
                raise ValueError(item)
            return tuple.__getitem__(self, self.__fields__.index(item))
        return tuple.__getitem__(self, item)

    def __getattr__(self, name):
        if name.startswith("__") or name not in self.__fields__:
            raise AttributeError(name)
        return self[name]

    def __contains__(self, item):
        return item in self.__fields__ if self.__fields__ else tuple.__contains__(self, item)

    def asDict(self, recursive=False):
        return dict(zip(self.__fields__, self))


class Session(object):
    """What is shared by the DataFrames of a workload: order of the rows of results, delays, faults, and a log of the queries."""
    def __init__(self, rng):
        self.rng, self.queries, self.running, self.overlap, self.delays, self.fault = rng, 0, 0, 0, False, None
        self.lock = threading.Lock()

    def collected(self, rows):
        with self.lock:
            self.queries += 1
            number = self.queries
            self.running += 1
            self.overlap = max(self.overlap, self.running)
            delay = self.rng.random() * 0.004 if self.delays else 0
            rows = list(rows)
            self.rng.shuffle(rows)
        try:
            if delay:
                time.sleep(delay)
            if self.fault is not None and number == self.fault:
                raise Fault("Job aborted due to stage failure")
            return rows
        finally:
            with self.lock:
                self.running -= 1


class DataFrame(object):
    def __init__(self, session, columns, rows, tuples=None):
        """rows: function that gives a list of dicts (tuples: of tuples, where names may not be unique)."""
        self._session, self._columns, self._rows, self._tuples = session, list(columns), rows, tuples

    @property
    def columns(self):
        return list(self._columns)

    @property
    def dtypes(self):
        raise Lacking("dtypes")

    def __getitem__(self, name):
        if isinstance(name, Column):
            return self.filter(name)
        if isinstance(name, int):
            name = self._columns[name]
        if not isinstance(name, str):
            raise TypeError("unexpected item type: {0}".format(type(name)))
        if name not in self._columns:
            raise AnalysisException("Cannot resolve column name \"{0}\" among ({1})".format(name, ", ".join(self._columns)))
        return col(name)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name not in self._columns:
            raise Lacking("DataFrame." + name)
        return self[name]

    def select(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], list):
            cols = cols[0]
        cols = [col(c) for c in cols]
        return DataFrame(self._session, [c._name for c in cols], lambda: [dict((c._name, c._fcn(r)) for c in cols) for r in self._rows()], lambda: [tuple(c._fcn(r) for c in cols) for r in self._rows()])

    def withColumn(self, name, c):
        return DataFrame(self._session, [n for n in self._columns if n != name] + [name], lambda: [dict(r, **{name: c._fcn(r)}) for r in self._rows()])

    def filter(self, c):
        return DataFrame(self._session, self._columns, lambda: [r for r in self._rows() if boolean(c._fcn(r)) is True])
    where = filter

    def groupBy(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], list):
            cols = cols[0]
        return GroupedData(self, [col(c) for c in cols])
    groupby = groupBy

    def drop(self, *names):
        names = [n._name if isinstance(n, Column) else n for n in names]
        return self.select(*[n for n in self._columns if n not in names])

    def withColumnRenamed(self, old, new):
        return self.select(*[col(n).alias(new) if n == old else col(n) for n in self._columns])

    def toDF(self, *names):
        return self.select(*[col(o).alias(n) for o, n in zip(self._columns, names)])

    def alias(self, name):
        return self
    repartition = coalesce = hint = lambda self, *args: self

    def agg(self, *aggs):
        return self.groupBy().agg(*aggs)

    def cache(self):
        return self
    persist = unpersist = cache

    def count(self):
        return len(self._rows())

    def collect(self):
        rows = self._tuples() if self._tuples is not None else [tuple(r[n] for n in self._columns) for r in self._rows()]
        return self._session.collected(Row(r, self._columns) for r in rows)

    def toLocalIterator(self):
        return iter(self.collect())

    def first(self):
        rows = self.collect()
        return rows[0] if rows else None


DataFrame.__module__ = "pyspark.sql.dataframe"


def keyed(x):
    """Group keys: NaN is one group, and so are 0.0 and -0.0; types differ."""
    if isinstance(x, (tuple, list)):
        return tuple(keyed(v) for v in x)
    if isinstance(x, float):
        return ("double", "NaN" if x != x else x + 0.0)
    return (type(x).__name__, x)


class GroupedData(object):
    def __init__(self, df, cols):
        self._df, self._cols = df, cols

    def agg(self, *aggs):
        if not aggs:
            raise AssertionError("exprs should not be empty")
        for a in aggs:
            if not isinstance(a, Column) or a._aggregate is None:
                raise AnalysisException("all exprs should be aggregates: {0!r}".format(a))
        names = [c._name for c in self._cols] + [a._name for a in aggs]

        def rows():
            groups, order = {}, []
            if not self._cols:
                groups[()] = ((), [])
                order.append(())
            for r in self._df._rows():
                values = tuple(c._fcn(r) for c in self._cols)
                k = keyed(values)
                if k not in groups:
                    groups[k] = (values, [])
                    order.append(k)
                groups[k][1].append(r)
            return [groups[k][0] + tuple(a._aggregate(groups[k][1]) for a in aggs) for k in order]
        return DataFrame(self._df._session, names, lambda: [dict(zip(names, r)) for r in rows()], rows)

    def count(self):
        return self.agg(FUNCTIONS["count"]("*"))

    def sum(self, *names):
        return self.agg(*[FUNCTIONS["sum"](n) for n in names])


def createDataFrame(session, rows, columns):
    rows = [dict(r) for r in rows]
    return DataFrame(session, columns, lambda: [dict(r) for r in rows])


def install():
    pyspark, sql, functions, dataframe, column = (types.ModuleType(n) for n in ("pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.dataframe", "pyspark.sql.column"))
    pyspark.sql = sql
    sql.functions, sql.dataframe, sql.column, sql.DataFrame, sql.Column, sql.Row = functions, dataframe, column, DataFrame, Column, Row
    dataframe.DataFrame, column.Column = DataFrame, Column
    for n, f in FUNCTIONS.items():
        setattr(functions, n, f)

    def lacking(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Lacking("pyspark.sql.functions." + name)
    functions.__getattr__ = lacking
    for m in (pyspark, sql, functions, dataframe, column):
        sys.modules[m.__name__] = m
