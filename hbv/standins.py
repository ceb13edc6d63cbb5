"""Stand-ins for pandas and ROOT (neither is installed): they record what is handed over, refuse what the real ones refuse, and answer the questions a user would ask."""
import contextlib
import math
import sys
import types

import numpy


# ------------------------------------------------------------------ pandas

class Interval(object):
    def __init__(self, left, right, closed="right"):
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': {0}".format(closed))
        for x in (left, right):
            if isinstance(x, (str, bytes, bool)) or not isinstance(x, (int, float, numpy.integer, numpy.floating)):
                raise ValueError("Only numeric, Timestamp and Timedelta endpoints are allowed when constructing an Interval.")
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        self.left, self.right, self.closed = left, right, closed

    def __eq__(self, other):
        return isinstance(other, Interval) and (self.left, self.right, self.closed) == (other.left, other.right, other.closed)

    def __hash__(self):
        return hash((self.left, self.right, self.closed))

    def __repr__(self):
        return "Interval({0}, {1}, closed={2!r})".format(self.left, self.right, self.closed)


class Index(object):
    """A (multi-)index: rows is a list of tuples."""
    def __init__(self, data, names=None, name=None):
        self.rows = [(x,) for x in data]
        self.names = list(names) if names is not None else [name]

    def __len__(self):
        return len(self.rows)


class MultiIndex(Index):
    def __init__(self, rows, names):
        self.rows, self.names = rows, names

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        arrays = [list(x) for x in arrays]
        if len(arrays) == 0:
            raise ValueError("Must pass non-zero number of levels/codes")
        if len(set(len(x) for x in arrays)) != 1:
            raise ValueError("all arrays must be same length")
        names = [None] * len(arrays) if names is None else list(names)
        if len(names) != len(arrays):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return cls(list(zip(*arrays)), names)

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        tuples = [tuple(x) for x in tuples]
        if len(tuples) == 0:
            if names is None:
                raise TypeError("Cannot infer number of levels from empty list")
            return cls([], list(names))
        return cls.from_arrays(list(zip(*tuples)), names=names)


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, dict):
            columns = list(data) if columns is None else list(columns)
            data = numpy.array([numpy.asarray(data[c]) for c in columns]).T
        elif isinstance(data, numpy.ndarray) and data.dtype.names is not None:
            columns = list(data.dtype.names) if columns is None else list(columns)
            data = numpy.array([data[c] for c in columns]).T
        self.index = index
        if columns is None:
            raise NotImplementedError("stand-in needs columns")
        self.columns = list(columns)
        if data is None:
            self.values = numpy.full((0 if index is None else len(index), len(self.columns)), numpy.nan)
        else:
            data = numpy.array(data)
            if data.ndim == 1:
                data = data.reshape((-1, 1))
            if data.ndim != 2:
                raise ValueError("Must pass 2-d input. shape={0}".format(data.shape))
            if index is not None and len(index) != data.shape[0] or len(self.columns) != data.shape[1]:
                raise ValueError("Shape of passed values is {0}, indices imply {1}".format(data.shape, (None if index is None else len(index), len(self.columns))))
            self.values = data

    def rows(self):
        """[(key tuple, [values])]"""
        keys = [(i,) for i in range(len(self.values))] if self.index is None else self.index.rows
        return list(zip(keys, self.values.tolist()))


# ------------------------------------------------------------------ ROOT

class TH1D(object):
    """As in ROOT: contents with n + 2 cells, sumw2 only once it is needed."""
    def __init__(self, name, title, n, *binning):
        if int(n) != n or n < 1:
            raise ValueError("TH1D with {0} bins".format(n))
        self.name, self.title, self.n = str(name), str(title), int(n)
        if len(binning) == 1:
            edges = numpy.asarray(binning[0])
            if edges.dtype not in (numpy.float64, numpy.float32):
                raise TypeError("could not convert argument 4")
            if len(edges) < self.n + 1:
                raise ValueError("too few edges")
            self.edges = [float(x) for x in edges[:self.n + 1]]
            self.variable = True
        else:
            lo, hi = float(binning[0]), float(binning[1])
            self.edges = [lo + (hi - lo) * i / self.n for i in range(self.n)] + [hi]
            self.variable = False
        self.content = numpy.zeros(self.n + 2)
        self.sumw2 = None
        self.entries = 0.0

    def GetName(self):
        return self.name

    def GetTitle(self):
        return self.title

    def SetName(self, name):
        self.name = str(name)

    def SetTitle(self, title):
        self.title = str(title)

    def GetNbinsX(self):
        return self.n

    def Sumw2(self, flag=True):
        if self.sumw2 is None:
            self.sumw2 = numpy.abs(self.content)

    def _cells(self, array):
        if array.dtype != numpy.float64 or not array.flags["C_CONTIGUOUS"] or len(array) < self.n + 2:
            raise TypeError("could not convert argument 1 (buffer of {0} doubles)".format(self.n + 2))
        return array[:self.n + 2]

    def SetContent(self, array):
        self.content = self._cells(array).copy()

    def SetError(self, array):
        self.sumw2 = self._cells(array)**2

    def SetEntries(self, n):
        self.entries = float(n)

    def GetEntries(self):
        return self.entries

    def _cell(self, i):
        if not 0 <= i < self.n + 2:
            raise IndexError(i)
        return int(i)

    def SetBinContent(self, i, x):
        self.content[self._cell(i)] = x

    def SetBinError(self, i, x):
        self.Sumw2()
        self.sumw2[self._cell(i)] = x**2

    def GetBinContent(self, i):
        return float(self.content[self._cell(i)])

    def GetBinError(self, i):
        if self.sumw2 is not None:
            return math.sqrt(self.sumw2[self._cell(i)])
        return math.sqrt(abs(self.content[self._cell(i)]))


class TProfile(TH1D):
    """content holds sum(w*y), sumw2 sum(w*y*y), binentries sum(w); mean and error on the mean are derived."""
    def __init__(self, name, title, n, *binning):
        super(TProfile, self).__init__(name, title, n, *binning)
        self.sumw2 = numpy.zeros(self.n + 2)
        self.binentries = numpy.zeros(self.n + 2)

    def SetBinEntries(self, i, w):
        self.binentries[self._cell(i)] = w

    def GetBinEntries(self, i):
        return float(self.binentries[self._cell(i)])

    def GetBinContent(self, i):
        n = self.binentries[self._cell(i)]
        return float(self.content[i] / n) if n != 0 else 0.0

    def GetBinError(self, i):
        n = self.binentries[self._cell(i)]
        if n == 0:
            return 0.0
        mean = self.content[i] / n
        return float(math.sqrt(abs(self.sumw2[i] / n - mean**2)) / math.sqrt(abs(n)))


def install():
    pandas = types.ModuleType("pandas")
    for x in (Interval, Index, MultiIndex, DataFrame):
        setattr(pandas, x.__name__, x)
    root = types.ModuleType("ROOT")
    for x in (TH1D, TProfile):
        setattr(root, x.__name__, x)
    sys.modules["pandas"], sys.modules["ROOT"] = pandas, root


@contextlib.contextmanager
def modules(**mods):
    """Modules that can be imported within the block."""
    before = dict((n, sys.modules.get(n)) for n in mods)
    sys.modules.update(mods)
    try:
        yield
    finally:
        for n, m in before.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
