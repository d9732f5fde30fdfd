"""Reports of any content, for contracts.

Symbolic: each variable is missing or not and has a value, decided when first looked at. Concrete: a record."""
import math
import z3
from .common import *
from .fields import RecordOf
from pyvc.facade import SDatetime

INTS = ("YR", "MO", "DY", "DS", "VS", "DCK", "PT", "SID")
# name -> (lo, hi) of values that records hold
RANGE = {
    "YR": (1600, 2100), "MO": (1, 12), "DY": (1, 31), "HR": (0, 23.99), "LAT": (-90, 90), "LON": (-180, 360),
    "DS": (0, 9), "VS": (0, 9), "SLP": (870, 1075), "AT": (-99, 99), "AT2": (-99, 99), "SST": (-99, 99),
    "DCK": (0, 999), "PT": (0, 21), "SID": (0, 255), "DPT": (-99, 99), "SHU": (0, 100), "VAP": (0, 100),
    "CRH": (0, 150), "CWB": (-99, 99), "DPD": (-10, 99), "W": (0, 99), "WI": (0, 8), "D": (0, 362), "DI": (0, 6),
    "WW": (0, 99)}
NAMES = list(RANGE)
USUAL = {
    "YR": [1850, 1899, 1900, 1967, 1968, 2000, 1948, 1993], "MO": [1, 2, 6, 12], "DY": [1, 28, 29, 30, 31],
    "HR": [0., 23.99, 12., 0.5, 11.98], "LAT": [0., 90., -90., 45.25], "LON": [0., 180., -180., 359.99, 181., 10.5],
    "DCK": [201, 720, 780, 926, 732, 701], "SID": [3, 29, 125, 147], "PT": [0, 5, 6, 7], "HUM": [0.]}


class State(object):
    """A report of any content. Variables in full are there, those in gone are not."""
    __ghost__ = True
    __symbolic__ = True

    def __init__(self, name="", gone=(), full=(), ranges=None, only=None):
        self.name, self.gone, self.full, self.only = name, gone, full, only
        self.ranges = dict(RANGE, **(ranges or {}))
        self.used = set()

    def __deepcopy__(self, memo):
        return self

    def raw(self, x):
        """(missing, value)"""
        E = core.engine()
        lo, hi = self.ranges[x]
        n = self.name + x
        v = SNum_int(z3.Int(n)) if x in INTS else core.SNum(z3.Real(n), "r")
        if x not in self.used:
            self.used.add(x)
            E.assume(core.boolexpr(And(v >= lo, v <= hi)))
        if x in self.gone or (self.only is not None and x not in self.only):
            return True, v
        return (False if x in self.full else core.mkb(z3.Bool("no " + n))), v

    def get(self, x):
        m, v = self.raw(x)
        return None if bool(m) else v

    def __concretize__(self, model):
        from pyvc.values import concretize
        d = {}
        for x in NAMES:
            if x in self.used:
                m, v = self.raw(x)
                if not (concretize(m, model) if core.is_sym(m) else m):
                    d[x] = concretize(v, model)
        return d


def SNum_int(e):
    return core.SNum(e, "i")


class Data(object):
    """the array of values of a report"""
    __symbolic__ = True

    def __init__(self, st, order):
        self.st, self.order, self.now, self.written = st, order, {}, set()

    def __getitem__(self, i):
        i = range(len(self.order))[i]
        if i not in self.now:
            m, v = self.st.raw(self.order[i])
            self.now[i] = float("nan") if bool(m) else core.tofloat(v)
        return self.now[i]

    def __setitem__(self, i, v):
        i = range(len(self.order))[i]
        self.written.add(self.order[i])
        self.now[i] = float("nan") if v is None else core.tofloat(v) if core.is_sym(v) else float(v)

    def slen(self):
        return len(self.order)

    __len__ = slen


def get(st, x):
    """value of a variable in a state or record, or None"""
    return st.get(x) if isinstance(st, State) else st.get(x)


def rep(W, st, cls="MarineReport", **more):
    """the report"""
    ex = W.Extended_IMMA
    if isinstance(st, State):
        r = getattr(ex, cls)(RecordOf(dict(more)))
        r.data = Data(st, ex.VARLIST)
        return r
    return getattr(ex, cls)(RecordOf(dict(st, **more)))


class AnyReport(Desc):
    def __init__(self, gone=(), full=(), ranges=None, only=None, miss=0.12, extra=None):
        self.gone, self.full, self.only = gone, full, only
        self.ranges, self.miss, self.extra = ranges or {}, miss, dict(USUAL, **(extra or {}))

    def sym(self, E, name):
        return State(name + ".", self.gone, self.full, self.ranges, self.only)

    def rand(self, rng, pool):
        d = {}
        sparse = rng.choice([self.miss, self.miss, 0.0, 0.5])
        for x in NAMES:
            if x in self.gone or (self.only is not None and x not in self.only):
                continue
            if x not in self.full and rng.random() < sparse:
                continue
            lo, hi = dict(RANGE, **self.ranges)[x]
            if rng.random() < 0.4 and x in self.extra:
                v = rng.choice(self.extra[x])
                if not lo <= v <= hi:
                    v = lo
            elif x in INTS:
                v = rng.randint(int(lo), int(hi))
            else:
                v = min(hi, max(lo, round(rng.uniform(lo, hi), rng.choice([0, 1, 2]))))
            d[x] = v if x in INTS else float(v)
        return d


def time_of(st):
    """(missing, hours since the year 0 in minutes' steps) a report's year, month, day and hour denote"""
    vs = [get(st, x) for x in ("YR", "MO", "DY", "HR")]
    if any(v is None for v in vs):
        return None
    y, m, d, h = vs
    if not bool(And(m >= 1, m <= 12, h >= 0, h < 24)):
        return None
    if not bool(And(d >= 1, d <= mlen(y, m))):
        return None
    return [y, m, d, Floor(h), Floor(60 * (h - Floor(h)))]


def fields_of(dt):
    return None if dt is None else [dt.year, dt.month, dt.day, dt.hour, dt.minute]
