"""C07: interpolated climatology."""
import copy
from .fields import *
from pyvc.seqs import FnSeq
import z3
from .C06 import get_sst, clim_value

CONTRACTS = Specs()
add = CONTRACTS.add
Q = Real(-1000, 1000)
X = Real(-400, 400)


def weights(a):
    return div((a.x2 - a.x) * (a.y2 - a.y), 1), (a.x - a.x1) * (a.y2 - a.y), (a.x2 - a.x) * (a.y - a.y1), \
        (a.x - a.x1) * (a.y - a.y1)


def bilinear(a, q11, q12, q21, q22):
    w11, w21, w12, w22 = weights(a)
    return div(q11 * w11 + q21 * w21 + q12 * w12 + q22 * w22, (a.x2 - a.x1) * (a.y2 - a.y1))


def inside(a):
    return And(a.x1 <= a.x, a.x <= a.x2, a.y1 <= a.y, a.y <= a.y2, a.x2 > a.x1, a.y2 > a.y1)


RECT = dict(x1=X, x2=X, y1=X, y2=X, x=X, y=X)
QS = dict(q11=Opt(Q), q12=Opt(Q), q21=Opt(Q), q22=Opt(Q))


def run_bilinear(W, a):
    return W.qc.bilinear_interp(a.x1, a.x2, a.y1, a.y2, a.x, a.y, a.q11, a.q12, a.q21, a.q22)


add("bilinear_interp refuses", dict(RECT, **QS), run_bilinear, ["qc.bilinear_interp"],
    pre=lambda a: Or(Not(inside(a)), None in (a.q11, a.q12, a.q21, a.q22)), spec=lambda a: Raised("AssertionError"))
# side lengths one, as all the callers have it
UNIT = dict(x1=X, y1=X, fx=Real(0, 1), fy=Real(0, 1), q11=Q, q12=Q, q21=Q, q22=Q)


def unit(a):
    return NS(x1=a.x1, x2=a.x1 + 1, y1=a.y1, y2=a.y1 + 1, x=a.x1 + a.fx, y=a.y1 + a.fy)


def between(a, r, lo=0.0):
    lo_, hi = Min(Min(a.q11, a.q12), Min(a.q21, a.q22)), Max(Max(a.q11, a.q12), Max(a.q21, a.q22))
    e = 0 if core.has_sym([r, lo_, hi]) else 1e-9
    return And(r >= lo_ - e, r <= hi + e)


add("bilinear_interp", UNIT, lambda W, a: W.qc.bilinear_interp(a.x1, a.x1 + 1, a.y1, a.y1 + 1, a.x1 + a.fx, a.y1 + a.fy,
                                                               a.q11, a.q12, a.q21, a.q22), ["qc.bilinear_interp"],
    post=lambda a, r: [("bilinear", eq(r, bilinear(unit(a), a.q11, a.q12, a.q21, a.q22), 1e-7)),
                       ("between the corners", between(a, r))])
# ------------------------------------------------------------- missing corners

def mean_of(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return None
    r = 0.0
    for x in xs:
        r = r + x
    return div(r, len(xs))


def corner(own, beside, opposite):
    """itself, else the mean of the present ones beside it, else the opposite one"""
    if own is not None:
        return own
    m = mean_of(beside)
    return opposite if m is None else m


def filled(q11, q12, q21, q22):
    return [corner(q11, [q12, q21], q22), corner(q12, [q11, q22], q21), corner(q21, [q11, q22], q12),
            corner(q22, [q12, q21], q11)]


class Maybe(object):
    def __init__(self, miss, val):
        self.miss, self.val = miss, val

    def __concretize__(self, model):
        return None if z3.is_true(model.eval(self.miss, model_completion=True)) else concretize(self.val, model)


class Values(FnSeq):
    def __concretize__(self, model):
        n = concretize(self.n, model)
        if n > 40:
            raise ValueError("long list")
        return [concretize(self.raw(i), model) for i in range(n)]


class Vals(Desc):
    """a list of any length, any of its values missing"""

    def sym(self, E, name):
        n = E.int("n")
        E.assume(n >= 0)
        I, R = z3.IntSort(), z3.RealSort()
        miss, val = z3.Function(E.name("miss"), I, z3.BoolSort()), z3.Function(E.name("val"), I, R)
        tot, num = z3.Function(E.name("total"), I, R), z3.Function(E.name("present"), I, I)
        E.assume(z3.And(tot(0) == 0, num(0) == 0))

        def elem(i):
            e = z3.simplify(core.lift(i)[0])
            j = z3.simplify(e + 1)
            # total and number of the present ones up to i, by their definitions
            E.assume(z3.And(tot(j) == tot(e) + z3.If(miss(e), 0, val(e)), num(j) == num(e) + z3.If(miss(e), 0, 1)))
            return None if E.branch(miss(e)) else core.mk(val(e), "r")
        r = Values(n, elem)
        r.raw = lambda i: Maybe(miss(z3.IntVal(i)), core.mk(val(z3.IntVal(i)), "r"))
        r.total, r.present = (lambda i: core.mk(tot(core.lift(i)[0]), "r")), (lambda i: core.mk(num(core.lift(i)[0]), "i"))
        return r

    def rand(self, rng, pool):
        return [Opt(Q, 0.4).rand(rng, pool) for _ in range(rng.choice([0, 1, 2, 2, 3, 5, 9]))]


def mean_post(a, r):
    if isinstance(a.x, list):
        return [("mean of the present ones", eq(r, mean_of(a.x), 1e-9))]
    n = a.x.slen()
    if r is None:
        return [("none only without any", a.x.present(n) == 0)]
    return [("mean of the present ones", And(a.x.present(n) != 0, r * a.x.present(n) == a.x.total(n)))]


add("missing_mean", dict(x=Vals()), lambda W, a: W.qc.missing_mean(a.x), ["qc.missing_mean"],
    loops={"qc.missing_mean#0": LoopSpec(inv=lambda v, s: [("total so far", v.result == core.engine().args.x.total(s.i)),
                                                           ("number so far", v.num == core.engine().args.x.present(s.i))])},
    post=mean_post)
add("missing_mean of two", dict(x=Lst(Opt(Q, 0.4), range(2, 3))), lambda W, a: W.qc.missing_mean(a.x), ["qc.missing_mean"],
    spec=lambda a: mean_of(a.x))
fill = add("fill_missing_vals", {k: Opt(Q, 0.4) for k in ("q11", "q12", "q21", "q22")},
    lambda W, a: list(W.qc.fill_missing_vals(a.q11, a.q12, a.q21, a.q22)), ["qc.fill_missing_vals", "qc.missing_mean"],
    spec=lambda a: filled(a.q11, a.q12, a.q21, a.q22))


def within(a, r):
    have = [q for q in (a.q11, a.q12, a.q21, a.q22) if q is not None]
    if not have:
        return And(*[x is None for x in r])
    lo = hi = have[0]
    for q in have[1:]:
        lo, hi = Min(lo, q), Max(hi, q)
    e = 0 if core.has_sym([r, lo, hi]) else 1e-9
    return And(*[And(x >= lo - e, x <= hi + e) if x is not None else False for x in r])


add("lemma: filled values lie between the present ones", {k: Opt(Q, 0.4) for k in ("q11", "q12", "q21", "q22")},
    lambda W, a: list(W.qc.fill_missing_vals(a.q11, a.q12, a.q21, a.q22)), ["qc.fill_missing_vals"],
    post=lambda a, r: [("within", within(a, r)), ("present ones unchanged", And(*[eq(x, q) for x, q in zip(
        r, (a.q11, a.q12, a.q21, a.q22)) if q is not None]))])

# ------------------------------------------------------------ the four points

LAT = Real(-90, 90, extra=(-90, 90, -89.5, 89.5, 89.9, -89.9, 0, 0.5))
LON = Real(-180, 180, extra=(-180, 180, -179.5, 179.5, 179.9, 0, 0.5))


def ceil(x):
    return -Floor(-x)


def points(lat, lon, max90):
    """centres of the 1 degree cells around; beyond the last rows the row itself, or (max90=0) the one it would be"""
    x1 = Floor(lon - 0.5) + 0.5
    y1 = ceil(lat - 0.5) - 0.5
    y2 = y1 + 1
    # rows beyond the poles
    cap = 90.5 if max90 == 0 else 89.5
    return [x1, x1 + 1, Max(y1, -cap), Min(y2, cap)]


four = add("get_four_surrounding_points", dict(lat=LAT, lon=LON, max90=Enum(0, 1)),
    lambda W, a: list(W.qc.get_four_surrounding_points(a.lat, a.lon, a.max90)), ["qc.get_four_surrounding_points"],
    spec=lambda a: points(a.lat, a.lon, a.max90), samples=2000)
add("lemma: the point lies inside the four, one degree apart", dict(lat=LAT, lon=LON),
    lambda W, a: list(W.qc.get_four_surrounding_points(a.lat, a.lon, 0)), ["qc.get_four_surrounding_points"],
    post=lambda a, r: And(r[0] <= a.lon, a.lon <= r[1], r[2] <= a.lat, a.lat <= r[3], r[1] - r[0] == 1, r[3] - r[2] == 1),
    samples=2000)
add("get_four_surrounding_points of no position", dict(lat=Real(-200, 200), lon=Real(-400, 400), max90=Enum(0, 1)),
    lambda W, a: list(W.qc.get_four_surrounding_points(a.lat, a.lon, a.max90)), ["qc.get_four_surrounding_points"],
    pre=lambda a: Or(a.lat < -90, a.lat > 90, a.lon < -180, a.lon > 180), spec=lambda a: Raised("AssertionError"))


# -------------------------------------------------------- the interpolated value

def interpolated(a, tindex):
    """the bilinear value of the surrounding cells; none where no cell touching the point has a value"""
    f, lat, lon = a.f, a.lat, a.lon

    def value(la, lo):
        if not bool(And(la >= -90, la <= 90)):
            return None
        return f.at(tindex, row(la, 1, 180), col(lo, 1, 360))
    if all([value(lat + i, lon + j) is None for i in (0.001, -0.001) for j in (0.001, -0.001)]):
        return None
    x1, x2, y1, y2 = points(lat, lon, 1)
    q = [value(y1, x1), value(y2, x1), value(y1, x2), value(y2, x2)]
    q11, q12, q21, q22 = filled(*q)
    if q11 is None:
        return NS(impossible=True)
    x1, x2, y1, y2 = points(lat, lon, 0)
    return bilinear(NS(x=lon, y=lat, x1=x1, x2=x2, y1=y1, y2=y2), q11, q12, q21, q22)


def when(a):
    """the time index of the date; for symbols any function of the date will do"""
    n = a.f.shape[0]
    if n == 1:
        return 0
    if core.has_sym([a.mo, a.dy]) and not getattr(core.engine(), "exact", False):
        t = core.SNum(z3.Function("time index %d" % n, z3.IntSort(), z3.IntSort(), z3.IntSort())(
            core.lift(a.mo)[0], core.lift(a.dy)[0]), "i")
        core.engine().assume(And(t >= 0, t < n))
        return t
    return (yday(a.mo, a.dy) - 1) // 5 if n == 73 else yday(a.mo, a.dy) - 1


def sst_spec(a):
    """what C06 proves of get_sst, the number of the pentad left open"""
    if a.lat is None or a.lon is None or a.mo is None or a.dy is None:
        return Raised("TypeError")
    if not bool(And(a.lat >= -90, a.lat <= 90, a.lon >= -185, a.lon <= 365, gooddate(a.mo, a.dy))):
        return Raised("AssertionError")
    return a.f.at(when(a), row(a.lat, 1, 180), col(a.lon, 1, 360))


def near(x):
    k = abs(x - round(x))
    return abs(k - 0.001) < 1e-9


def border_guard(a):
    return a.lat is None or a.lon is None or not (near(a.lat) or near(a.lon))


SLAT = Split(-90, 90, extra=(-90, 90, -89.5, 89.5, 89.9, -89.9, 0, 0.5))
SLON = Split(-180, 180, extra=(-180, 180, -179.5, 179.5, 179.9, 0, 0.5))
sst = copy.copy(get_sst)
sst.spec = sst_spec
BOX = ("x1", "x2", "y1", "y2", "x", "y", "q11", "q12", "q21", "q22")
box = Contract("bilinear_interp", {k: None for k in BOX}, None, [],
               pre=lambda a: And(inside(a), a.x2 - a.x1 == 1, a.y2 - a.y1 == 1, None not in (a.q11, a.q12, a.q21, a.q22)),
               spec=lambda a: bilinear(a, a.q11, a.q12, a.q21, a.q22))
USE = {"qc.bilinear_interp": box, "qc.get_sst": sst, "qc.get_four_surrounding_points": four, "qc.fill_missing_vals": fill}
REP = dict(lat=Opt(SLAT, 0.05), lon=Opt(Split(-180, 360, extra=(-180, 180, 360, 180.5, 0, 0.5)), 0.05), mo=Opt(Int(1, 12), 0.05),
           dy=Opt(Int(1, 31), 0.05), f=Grids((73, 180, 360), (1, 180, 360), masked=2))


def for_report(a):
    if a.lat is None or a.lon is None or a.mo is None or a.dy is None:
        return None
    if not bool(gooddate(a.mo, a.dy)):
        return None
    return interpolated(NS(lat=a.lat, lon=Ite(a.lon > 180, a.lon - 360, a.lon), f=a.f), when(a))


def run_report(W, a):
    rep = report(W, LAT=a.lat, LON=a.lon, MO=a.mo, DY=a.dy, ID="ABC")
    return W.qc.get_clim_interpolated(rep, a.f)


add("get_clim_interpolated", REP, run_report, ["qc.get_clim_interpolated"], spec=for_report, guard=border_guard, samples=3000,
    budget=300, max_paths=60000, feas_ms=3000, use=USE)


def value_spec(a):
    if a.month is None or a.day is None or not bool(gooddate(a.month, a.day)):
        return None
    # in reach: half a degree across the date line
    g = NS(lat=a.lat, lon=a.lon, mo=a.month, dy=a.day, f=a.clim.field)
    return g.f.at(when(g), row(g.lat, 1, 180), col(g.lon, 1, 360))


value = Contract("Climatology.get_value", {k: None for k in ("clim", "lat", "lon", "month", "day")}, None, [],
                 pre=lambda a: And(a.lat >= -90, a.lat <= 90, a.lon >= -181, a.lon <= 360), spec=value_spec)
CUSE = {"qc.bilinear_interp": box, "Climatology.Climatology.get_value": value,
        "qc.get_four_surrounding_points": four, "qc.fill_missing_vals": fill}
add("Climatology.get_interpolated_value", dict(lat=SLAT, lon=SLON, mo=Opt(Int(-1, 14), 0.05), dy=Opt(Int(-1, 32), 0.05),
                                               f=Grids((73, 180, 360), (365, 180, 360), masked=2)),
    lambda W, a: W.Climatology.Climatology(a.f).get_interpolated_value(a.lat, a.lon, a.mo, a.dy),
    ["Climatology.Climatology.get_interpolated_value"],
    spec=lambda a: interpolated(a, when(a)) if a.mo is not None and a.dy is not None and bool(gooddate(a.mo, a.dy)) else None,
    guard=border_guard, samples=3000, budget=300, max_paths=60000, feas_ms=3000, use=CUSE)
