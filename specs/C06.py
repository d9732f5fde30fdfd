"""C06: climatology lookups."""
from .fields import *
from .report import SNum_int
from .C01 import Store

CONTRACTS = Specs()
add = CONTRACTS.add

LAT = Real(-90, 90, extra=(-90, 90, 0, 45.5, 12))
LON = Real(-180, 360, extra=(-180, 180, 0, 360, 33))
ANYLAT = Real(-120, 120, extra=(-90, 90, 0, 90.1, -90.1))
ANYLON = Real(-200, 400, extra=(-180, 180, 0, 360, 361, -181))
MONTH, DAY = Int(-1, 14, extra=(2, 1, 12)), Int(-1, 33, extra=(28, 29, 30, 31, 1))
PENTADS, SINGLE, DAILY = (73, 180, 360), (1, 180, 360), (365, 180, 360)
BIG = (73, 720, 1440)
SST = dict(lat=ANYLAT, lon=ANYLON, mo=MONTH, dy=DAY, f=Grids(PENTADS, SINGLE))


def valid(a, west=-180, east=360):
    return And(a.lat >= -90, a.lat <= 90, a.lon >= west, a.lon <= east, gooddate(a.mo, a.dy))


def pentad(a):
    return (yday(a.mo, a.dy) - 1) // 5


def cell(a, res=1):
    f = a.f
    t = 0 if f.shape[0] == 1 else (pentad(a) if f.shape[0] == 73 else yday(a.mo, a.dy) - 1)
    return f.at(t, row(a.lat, res, f.shape[-2]), col(a.lon, res, f.shape[-1]))


def sst(a):
    """up to 5 degrees across the usual ends are the neighbours there"""
    if not valid(a, -185, 365):
        return Raised("AssertionError")
    return cell(a)


def overlap(a):
    """up to 5 degrees beyond the usual range of longitudes are taken by some lookups only"""
    return Or(And(a.lon >= -180, a.lon <= 360), a.lon < -185, a.lon > 365)


get_sst = add("get_sst", SST, lambda W, a: W.qc.get_sst(a.lat, a.lon, a.mo, a.dy, a.f), ["qc.get_sst"], spec=sst,
              samples=1500)
add("get_sst_single_field", dict(lat=ANYLAT, lon=ANYLON, f=Grid(SINGLE)),
    lambda W, a: W.qc.get_sst_single_field(a.lat, a.lon, a.f), ["qc.get_sst_single_field"],
    spec=lambda a: cell(a) if valid(NS(lat=a.lat, lon=a.lon, mo=1, dy=1), -185, 365) else Raised("AssertionError"), samples=1500)
add("get_sst_daily", dict(SST, f=Grid(DAILY)), lambda W, a: W.qc.get_sst_daily(a.lat, a.lon, a.mo, a.dy, a.f),
    ["qc.get_sst_daily"], spec=lambda a: a.f.at(yday(a.mo, a.dy) - 1, mds_row(a.lat, 1, 180), mds_col(a.lon, 1, 360))
    if valid(a) else Raised("AssertionError"), pre=overlap, samples=1500)


def hires(a):
    if not valid(a):
        return Raised("AssertionError")
    r = a.f.at(yday(a.mo, a.dy) - 1, 0, row(a.lat, 0.25, 720), col(a.lon, 0.25, 1440))
    return r


HIRES = dict(SST, f=OneOf(Grid((365, 1, 720, 1440), fill=True), Grid((365, 1, 720, 1440))))
NOT999 = None
hires_c = add("get_hires_sst", HIRES, lambda W, a: W.qc.get_hires_sst(a.lat, a.lon, a.mo, a.dy, a.f), ["qc.get_hires_sst"],
              spec=lambda a: nofill(hires(a)), samples=1500)


def nofill(r):
    """-999 is the hires fields' missing value"""
    if core.is_sym(r):
        return None if bool(r == -999) else r
    return r


# ------------------------------------------------ for a report: never an error

RLON = Opt(Real(-180, 360, extra=(-180, 180, 0, 360, 181)))
REP = dict(lat=Opt(LAT), lon=RLON, yr=Int(1850, 2020), mo=Opt(Int(1, 12)), dy=Opt(Int(1, 31)))


def of_report(a, value):
    if a.lat is None or a.lon is None or a.mo is None or a.dy is None:
        return None
    b_ = NS(**dict(a.__dict__, lon=Ite(a.lon > 180, a.lon - 360, a.lon)))
    if not gooddate(a.mo, a.dy):
        return None
    r = value(b_)
    return r


def lookup(name):
    def run(W, a):
        rep = report(W, LAT=a.lat, LON=a.lon, MO=a.mo, DY=a.dy, ID="ABC")
        return getattr(W.qc, name)(rep, a.f)
    return run


add("get_clim", dict(REP, f=Grids(PENTADS, SINGLE)), lookup("get_clim"), ["qc.get_clim", "qc.get_sst"],
    spec=lambda a: of_report(a, cell), samples=1500)
add("get_hires_clim", dict(REP, f=HIRES["f"]), lookup("get_hires_clim"), ["qc.get_hires_clim", "qc.get_hires_sst"],
    spec=lambda a: of_report(a, lambda b_: nofill(hires(b_))), samples=1500)

# --------------------------------------------------------------- Climatology

CLIM = dict(lat=LAT, lon=LON, mo=Opt(MONTH), dy=Opt(DAY))


def dated(a):
    return a.mo is not None and a.dy is not None and bool(gooddate(a.mo, a.dy))


def get_value(a):
    if not dated(a):
        return None
    return cell(a, 180. / a.f.shape[1])


def mds_value(a):
    if not dated(a):
        return None
    f = a.f
    res = 180. / f.shape[1]
    t = 0 if f.shape[0] == 1 else (pentad(a) if f.shape[0] == 73 else yday(a.mo, a.dy) - 1)
    return f.at(t, mds_row(a.lat, res, f.shape[1]), mds_col(a.lon, res, f.shape[2]))


FIELDS = Grids(PENTADS, SINGLE, DAILY, BIG, (1, 360, 720))
clim_value = add("Climatology.get_value", dict(CLIM, lon=Real(-181, 360, extra=(-180, 180, 0, 360, 33, -180.5)), f=FIELDS),
    lambda W, a: W.Climatology.Climatology(a.f).get_value(a.lat, a.lon, a.mo, a.dy), ["Climatology.Climatology.get_value"],
    spec=get_value, samples=1500)
MLON = Real(-180, 180, extra=(-180, 180, 0, 90, 90.5))
add("Climatology.get_value_mds_style", dict(CLIM, lon=MLON, f=FIELDS),
    lambda W, a: W.Climatology.Climatology(a.f).get_value_mds_style(a.lat, a.lon, a.mo, a.dy),
    ["Climatology.Climatology.get_value_mds_style"], spec=mds_value, samples=1500)
# 0.05 is not a binary fraction: points within rounding of a border are left out
OSTIA = (1, 3600, 7200)


def offborder(a):
    def off(x):
        k = x * 20
        f = k - Floor(k)
        return And(f > 1e-6, f < 1 - 1e-6)
    return And(off(a.lat), off(a.lon))


add("Climatology.get_value_ostia", dict(lat=LAT, lon=MLON, f=Grid(OSTIA)),
    lambda W, a: W.Climatology.Climatology(a.f).get_value_ostia(a.lat, a.lon), ["Climatology.Climatology.get_value_ostia"],
    pre=offborder, spec=lambda a: a.f.at(0, mds_row(a.lat, 0.05, 3600), mds_col(a.lon, 0.05, 7200)), samples=1500)
add("Climatology, only single, pentad or daily fields", dict(n=Int(0, 400, extra=(1, 73, 365))),
    lambda W, a: W.Climatology.Climatology(NS(shape=(a.n, 180, 360))).n, ["Climatology.Climatology.__init__"],
    spec=lambda a: a.n if Or(a.n == 1, a.n == 73, a.n == 365) else Raised("AssertionError"))
add("Climatology.get_tindex", dict(mo=Int(1, 12), dy=Int(1, 31), n=Enum(1, 73, 365)),
    lambda W, a: W.Climatology.Climatology(NS(shape=(a.n, 180, 360))).get_tindex(a.mo, a.dy),
    ["Climatology.Climatology.get_tindex"], pre=lambda a: gooddate(a.mo, a.dy),
    spec=lambda a: 0 if a.n == 1 else (pentad(a) if a.n == 73 else yday(a.mo, a.dy) - 1))


# ------------------------------------------- numpy's own arrays and masks agree

def concrete(a):
    f = np.empty((73, 4, 8))
    m = np.empty((73, 4, 8), dtype=bool)
    for i in range(73):
        for j in range(4):
            for k in range(8):
                m[i, j, k], f[i, j, k] = a.f.cell((i, j, k))
    return np.ma.array(f, mask=m)


add("Climatology.get_value on numpy arrays", dict(CLIM, f=Grid((73, 4, 8))),
    lambda W, a: W.Climatology.Climatology(concrete(a) if not W.symbolic else a.f).get_value(a.lat, a.lon, a.mo, a.dy),
    ["Climatology.Climatology.get_value"], spec=get_value, samples=300, diff=False)


# ---------------------------------------------------- the library of fields

class Statistics(Store):
    """the statistics held for one variable, of any number"""

    def __init__(self, var):
        Store.__init__(self, "statistics", field0)
        self.var = var

    def base(self, key):
        return Store.base(self, (self.var, key))

    def same(self, k, l):
        return Store.same(self, k, l)


def field0(name, ps):
    return SNum_int(z3.Function("field", z3.StringSort(), z3.StringSort(), z3.IntSort())(*ps))


class Variables(Store):
    """the variables of a library, of any number; the same object each time one is asked for"""

    def __init__(self, W):
        Store.__init__(self, "variables", None)
        self.W, self.seen = W, []

    def __getitem__(self, key):
        for k, v in reversed(self.puts + self.seen):
            if bool(self.same(k, key)):
                return v
        if not bool(core.mkb(self.base(key)[0])):
            raise KeyError(key)
        m = self.W.Extended_IMMA.MultivariableClimatology()
        m.statistic_dic = Statistics(key)
        self.seen.append((key, m))
        return m


class Additions(Desc):
    def sym(self, E, name):
        return None

    def rand(self, rng, pool):
        return [(rng.choice(["SST", "AT", "SLP", "S"]), rng.choice(["mean", "stdev", "ST"]), rng.randint(0, 99)) for _ in range(rng.choice([0, 1, 3, 8]))]


def library(W, h):
    lib = W.Extended_IMMA.ClimatologyLibrary()
    if h is None:
        lib.climlib = Variables(W)
    for x in h or []:
        lib.add_field(*x)
    return lib


def field_of(lib, v, s):
    try:
        return lib.get_field(v, s)
    except AssertionError:
        return None


def library_run(W, a):
    lib = library(W, a.h)
    before = field_of(lib, a.v2, a.s2)
    lib.add_field(a.v, a.s, a.f)
    return before, field_of(lib, a.v, a.s), field_of(lib, a.v2, a.s2)


def library_post(a, r):
    before, mine, other = r
    hit = And(a.v == a.v2, a.s == a.s2)
    if before is None:
        kept = hit if other is not None else Not(hit)
        kept = [kept, True if other is None else other == a.f]
    else:
        kept = [False] if other is None else [other == Ite(hit, a.f, before)]
    return [("the field added is the one found", mine is not None and mine == a.f),
            ("every other field is found, or refused, as before", And(*kept))]


VN, SN = Str("SST", "AT", "SLP", "S", "T"), Enum("mean", "stdev", "other")
add("ClimatologyLibrary: each variable and statistic has its own field", dict(h=Additions(), v=VN, s=SN, v2=VN, s2=SN, f=Int(100, 200)),
    library_run, ["Extended_IMMA.ClimatologyLibrary." + n for n in ("__init__", "add_field", "get_field")] +
    ["Extended_IMMA.MultivariableClimatology." + n for n in ("__init__", "add_statistic", "get_statistic")],
    post=library_post, diff=False, samples=600)


def empty_run(W, a):
    return [field_of(library(W, []), a.v, a.s), len(library(W, []).climlib)]


add("ClimatologyLibrary: empty at first", dict(v=VN, s=SN), empty_run, ["Extended_IMMA.ClimatologyLibrary.__init__"],
    spec=lambda a: [None, 0], diff=False, samples=50)


# --------------------------------------------------------- fields from files

class View(Field):
    """a field looked at in another order: the cell at idx is the base's at where(idx)"""

    def __init__(self, base, shape, where):
        Field.__init__(self, shape, None, masked=base.masked)
        self.base, self.where = base, where

    def cell(self, idx):
        return self.base.cell(tuple(self.where(tuple(idx))))

    def axis(self, k):
        if not -self.ndim <= k < self.ndim:
            raise ValueError("axis %r is out of bounds for array of dimension %d" % (k, self.ndim))
        return k % self.ndim

    def sflip(self, k):
        if k is None:
            raise Unsupported("flip of every axis")
        k, n = self.axis(k), self.shape
        return View(self, n, lambda i: i[:k] + (n[k] - 1 - i[k],) + i[k + 1:])

    def sroll(self, by, k):
        if k is None:
            raise Unsupported("roll of the flattened array")
        k, n, by = self.axis(k), self.shape, int(by)
        return View(self, n, lambda i: i[:k] + ((i[k] - by) % n[k],) + i[k + 1:])

    def transpose(self, *axes):
        axes = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes
        axes = [self.axis(k) for k in axes] or list(range(self.ndim))[::-1]
        return View(self, [self.shape[k] for k in axes], lambda i: [i[axes.index(k)] for k in range(self.ndim)])

    def swapaxes(self, a, b):
        axes = list(range(self.ndim))
        axes[a], axes[b] = axes[b], axes[a]
        return self.transpose(*axes)

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if not any(isinstance(k, slice) for k in ks):
            if len(ks) < self.ndim:
                return self[tuple(ks) + (slice(None),) * (self.ndim - len(ks))]
            return Field.__getitem__(self, ks)
        ks = ks + (slice(None),) * (self.ndim - len(ks))
        shape, part = [], []
        for k, n in zip(ks, self.shape):
            if isinstance(k, slice):
                r = range(n)[k]
                shape.append(len(r))
                part.append(r)
            elif isinstance(k, int):
                if not -n <= k < n:
                    raise IndexError("index %d is out of bounds" % k)
                part.append(k % n)
            else:
                raise Unsupported("part of a field")

        def where(i):
            i = list(i)
            return [p.start + p.step * i.pop(0) if isinstance(p, range) else p for p in part]
        return View(self, shape, where)


class Whole(object):
    """a variable of a file: read with [:]"""

    def __init__(self, value):
        self.value = value

    def __getitem__(self, key):
        if key != slice(None) and key is not Ellipsis:
            raise Unsupported("part of a variable of a file")
        return self.value


class File(object):
    def __init__(self, held):
        self.variables = held

    def close(self):
        pass


def numpy_field(f):
    """the same numbers and masks as an array of numpy"""
    v, m = np.empty(f.shape), np.empty(f.shape, dtype=bool)
    for i in np.ndindex(*f.shape):
        m[i], v[i] = f.cell(i)
    return np.ma.array(v, mask=m)


def axes(nlat, nlon, south, zero):
    """the centres of a grid's rows and columns"""
    lats = -90 + (np.arange(nlat) + 0.5) * 180. / nlat
    lons = (0. if zero else -180.) + (np.arange(nlon) + 0.5) * 360. / nlon
    return lats if south else lats[::-1], lons


# shape in the file; counted from the south; columns counted from the Greenwich meridian; longitude before latitude
LAYOUTS = [((n,) + deep + (la, lo), south, zero, False) for n, la, lo in ((1, 180, 360), (73, 180, 360), (365, 720, 1440))
           for deep in ((), (1,)) for south in (False, True) for zero in (False, True)] + \
          [((1, 360, 180), south, zero, True) for south in (False, True) for zero in (False, True)]
TRIED = [l for l in LAYOUTS if l[0][0] == 1 and 180 in l[0]]
LATS, LONS = ["lat", "lats", "latitude", "latitudes"], ["lon", "lons", "long", "longs", "longitude", "longitudes"]


class Layout(Desc):
    def __init__(self, names):
        self.names = names

    def sym(self, E, name):
        ls = LAYOUTS if self.names is None else LAYOUTS[:1]
        l = ls[E.choose(len(ls))] if len(ls) > 1 else ls[0]
        return NS(shape=l[0], south=l[1], zero=l[2], turned=l[3], f=Field(l[0], "a." + name), **self.name(E.choose))

    def rand(self, rng, pool):
        l = rng.choice(TRIED)
        return NS(shape=l[0], south=l[1], zero=l[2], turned=l[3], f=Field(l[0], None, rng.randint(0, 10 ** 6)),
                  **self.name(lambda n: rng.randint(0, n - 1)))

    def name(self, pick):
        return dict(lat=LATS[pick(4)], lon=LONS[pick(6)]) if self.names else dict(lat="lat", lon="lon")


def read_file(W, a, run):
    M = W.Climatology
    old = M.Dataset

    def dataset(name, *mode, **kw):
        if name != "field.nc":
            raise IOError(name)
        k = a.k
        nlat, nlon = (k.shape[-1], k.shape[-2]) if k.turned else (k.shape[-2], k.shape[-1])
        lats, lons = axes(nlat, nlon, k.south, k.zero)
        held = {"sst": Whole(View(k.f, k.shape, lambda i: i) if W.symbolic else numpy_field(k.f)), "time": Whole(np.arange(k.shape[0]))}
        if k.lat is not None:
            held[k.lat] = Whole(lats)
        if k.lon is not None:
            held[k.lon] = Whole(lons)
        return File(held)
    try:
        M.Dataset = dataset
        return run(M.Climatology.from_filename("field.nc", "sst"))
    finally:
        M.Dataset = old


def in_file(a):
    """the file's own number for the cell that the place lies in"""
    k = a.k
    n, m = (k.shape[-1], k.shape[-2]) if k.turned else (k.shape[-2], k.shape[-1])
    if not dated(a):
        return None
    j, i = row(a.lat, 180. / n, n), col(a.lon, 360. / m, m)
    if k.south:
        j = n - 1 - j
    if k.zero:
        i = (i + m // 2) % m
    t = 0 if k.shape[0] == 1 else (pentad(a) if k.shape[0] == 73 else yday(a.mo, a.dy) - 1)
    return k.f.at(t, *((i, j) if k.turned else (0, j, i) if len(k.shape) == 4 else (j, i)))


for _what, _names in (("whichever way it is stored", None), ("whatever its axes are called", True)):
    add("from_filename: the file's own cell, %s" % _what, dict(k=Layout(_names), lat=LAT, lon=Real(-180, 360), mo=MONTH, dy=DAY),
        lambda W, a: read_file(W, a, lambda c: c.get_value(a.lat, a.lon, a.mo, a.dy)), ["Climatology.Climatology.from_filename"],
        spec=in_file, samples=60)


def unreadable(W, a):
    try:
        return read_file(W, a, lambda c: "read")
    except AssertionError:
        return "refused"


class Nameless(Layout):
    def name(self, pick):
        lat, lon = [("lat", "lon"), (None, "lon"), ("lat", None), ("y", "lon"), ("lat", "x"), (None, None)][pick(6)]
        return dict(lat=lat, lon=lon)


add("from_filename: a file without readable axes is refused", dict(k=Nameless(True)), unreadable,
    ["Climatology.Climatology.from_filename"], spec=lambda a: "read" if (a.k.lat, a.k.lon) == ("lat", "lon") else "refused", samples=20)


def nofile(W, a):
    M = W.Climatology
    old = M.np
    try:
        M.np = np               # nothing is arbitrary here: numpy itself
        f = M.Climatology.from_filename(None, "sst").field
    finally:
        M.np = old
    return [f.shape[0], f.shape[2] == 2 * f.shape[1], bool(np.ma.getmaskarray(f).all())]


add("from_filename: without a file no cell has a value", {}, nofile, ["Climatology.Climatology.from_filename"],
    spec=lambda a: [1, True, True], samples=1, diff=False)
