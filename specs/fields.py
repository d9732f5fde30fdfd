"""Gridded fields of arbitrary values and masks, and reports, for contracts."""
import numpy as np
import z3

from .common import *
from pyvc import core


def _mix(idx):
    h = 2166136261
    for i in idx:
        h = ((h ^ (i + 77)) * 16777619) % 4294967296
    return h ^ (h >> 13)


class Field(object):
    """A grid of numbers, some of them masked: arbitrary functions of the cell
    (symbolic), or what those are in a counterexample, or pseudo-random."""

    def __init__(self, shape, name=None, seed=0, masked=4, fill=False):
        self.shape, self.name, self.seed, self.masked, self.fill = tuple(shape), name, seed, masked, fill
        self.ndim = len(self.shape)
        self.cells = {}
        self.touched = []
        if name is not None:
            n = len(self.shape)
            self.f = z3.Function("f." + name, *([z3.IntSort()] * n + [z3.RealSort()]))
            self.m = z3.Function("m." + name, *([z3.IntSort()] * n + [z3.BoolSort()]))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "Field(%r, seed=%r, masked=%r, fill=%r, cells=%r)" % (self.shape, self.seed, self.masked, self.fill,
                                                                  self.cells)

    def __concretize__(self, model):
        r = Field(self.shape, None, 1, self.masked, self.fill)
        for idx in self.touched:
            k = tuple(int(values_number(model, e)) for e in idx)
            v = float(values_number(model, self.f(*idx)))
            m = z3.is_true(model.eval(self.m(*idx), model_completion=True))
            r.cells[k] = (m and bool(self.masked), v)
        return r

    def __pin__(self):
        return self

    def cell(self, idx):
        """(masked, value)"""
        if self.name is not None:
            es = tuple(z3.simplify(core.lift(i)[0]) for i in idx)
            if not any(all(a.eq(b) for a, b in zip(es, t)) for t in self.touched):
                self.touched.append(es)
            v = core.SNum(self.f(*es), "r", np.float64)
            E = core.engine()
            E.assume(v >= -1000)
            E.assume(v <= 1000)
            if not self.masked:
                return False, v
            return core.mkb(self.m(*es)), v
        if any(isinstance(i, core.Sym) for i in idx):
            idx = tuple(int(i) for i in idx)
        if idx in self.cells:
            return self.cells[idx]
        h = _mix(idx + (self.seed,))
        return bool(self.masked) and h % self.masked == 0, (h // 8 % 4001) / 100.0 - 10.0

    def __getitem__(self, key):
        if not isinstance(key, tuple) or len(key) > len(self.shape):
            raise IndexError("too many indices")
        if any(isinstance(k, slice) for k in key):
            if isinstance(key[0], slice) and key[0] == slice(None) and all(k == 0 for k in key[1:]) and \
                    len(key) == len(self.shape):
                return [0.0] * self.shape[0]
            raise core.Unsupported("slice of a field")
        idx = []
        for k, n in zip(key, self.shape):
            if isinstance(k, core.SNum):
                if k.k != "i":
                    raise IndexError("only integers are valid indices")
                E = core.engine()
                if E.branch(z3.Or(k.e >= n, k.e < -n)):
                    raise IndexError("index out of bounds")
                if E.branch(k.e < 0):
                    k = k + n
            else:
                if not isinstance(k, (int, np.integer)) or isinstance(k, bool):
                    raise IndexError("only integers are valid indices")
                if not -n <= k < n:
                    raise IndexError("index out of bounds")
                k = int(k) % n
            idx.append(k)
        m, v = self.cell(tuple(idx))
        if self.fill:
            # missing values stored as -999
            return Ite(m, core.SNum(z3.RealVal(-999), "r"), v) if core.has_sym([m, v]) else (-999.0 if m else v)
        if bool(m):
            return np.ma.masked
        return v if isinstance(v, core.Sym) else np.float64(v)

    def at(self, *idx):
        """what a lookup of the cell should give"""
        m, v = self.cell(tuple(i if isinstance(i, core.Sym) else int(i) for i in idx))
        if bool(m):
            return None
        return v


def values_number(model, e):
    from pyvc.values import model_number
    return model_number(model, e)


def Grid(shape, masked=4, fill=False):
    return Fn(lambda E, n: Field(shape, "a." + n, masked=masked, fill=fill),
              lambda rng, pool: Field(shape, None, rng.randint(0, 10 ** 6), masked, fill))


def Grids(*shapes, **kw):
    return OneOf(*[Grid(s, **kw) for s in shapes])


def row(lat, res, n):
    """rows counted from the north pole, borders belong to the southern cell"""
    return Min(Floor(div(90 - lat, res)), n - 1)


def col(lon, res, n):
    """columns counted from the date line, borders belong to the eastern cell"""
    k = Floor(div(lon + 180, res))
    return k % n


def mds_row(lat, res, n):
    h = n // 2
    return Ite(lat > 0, h - 1 - Min(Floor(div(lat, res)), h - 1), h + Min(Floor(div(-lat, res)), h - 1))


def mds_col(lon, res, n):
    h = n // 2
    lon = Ite(lon > 180, lon - 360, Ite(lon < -180, lon + 360, lon)) if core.is_sym(lon) else \
        (lon - 360 if lon > 180 else lon + 360 if lon < -180 else lon)
    return Ite(lon > 0, h + Min(Floor(div(lon, res)), h - 1), h - 1 - Min(Floor(div(-lon, res)), h - 1))


def yday(m, d):
    """day of the 365-day year; 29 February counts as 1 March"""
    return Ite(And(m == 2, d == 29), 60, cum365(m) + d)


def gooddate(m, d):
    """a date of some year"""
    return And(m >= 1, m <= 12, d >= 1, d <= pick(m - 1, [31, 29] + LEN[2:]))


class RecordOf(object):
    def __init__(self, data):
        self.data = data


def report(W, **data):
    """A report made of a record with the given fields."""
    return W.Extended_IMMA.MarineReport(RecordOf(data))


def qcreport(W, **data):
    return W.Extended_IMMA.MarineReportQC(RecordOf(data))
