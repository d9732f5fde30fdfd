"""C21: the sun's position and the day/night tests."""
import z3
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add
FEAS = 30
PI = math.pi
RAD = PI / 180.


def days1980(year, day):
    """whole days since 1 January 1980"""
    return ordinal(year, 1, 1) - ordinal(1980, 1, 1) + day - 1


def hours_of(a):
    return a.hour + (a.minute + a.sec / 60.) / 60. + a.zone - a.dasvtm


def formula(year, day, hours, lat, lon):
    """Elevation and declination (degrees) by the documented low-precision almanac formulas: an elliptical orbit,
    time counted in days of the Gregorian calendar. Depends on the instant and the place only."""
    E = core.engine()
    if E is not None and core.is_sym(year):
        n = core.real(*core.lift(year - 1980))
        E.memo["turns"] = [k for d in (-3, -2, -1, 0, 1, 2, 3) for k in (z3.RealVal(d), n + d, d - n)]
    lat = Ite(lat == 0, 0.0001, lat)
    t = days1980(year, day) - 1 + hours / 24.
    theta = 360. * t / 365.25 * RAD
    g = -0.031271 - 4.5396e-7 * t + theta
    lo = 4.900968 + 3.6747e-7 * t + (0.033434 - 2.3e-9 * t) * sin(g) + 0.000349 * sin(2. * g) + theta
    eps = 0.409140 - 6.2149e-9 * t
    dec = fn("asin", sin(lo) * sin(eps))
    ra = fn2("atan2", sin(lo) * cos(eps), cos(lo))
    sid = 1.759335 + 2. * PI * (t / 365.25) + 3.694e-7 * t + (hours * 15. + lon) * RAD
    p = lat * RAD
    s = sin(p) * sin(dec) + cos(p) * cos(dec) * cos(sid - ra)
    s = Max(Min(s, 1.0), -1.0)
    return fn("asin", s) / RAD, dec / RAD


def sun(a):
    return formula(a.year, a.day, hours_of(a), a.lat, a.lon)


LAT = Real(-90, 90, extra=(-90, 90, 0, 0.0001))
LON = Real(-180, 360, extra=(-180, 180, 0, 360))
TIME = dict(year=Int(1850, 2100, extra=(1979, 1980, 1981, 1899, 1900, 2000)), day=Int(1, 366), hour=Int(0, 23), minute=Int(0, 59),
            sec=Int(0, 59), zone=Real(-24, 24), dasvtm=Int(0, 1))


def call(W, a):
    return list(W.qc.sunangle(a.year, a.day, a.hour, a.minute, a.sec, a.zone, a.dasvtm, a.lat, a.lon))


def ranges(a, r):
    az, el, rta, hra, sid, dec = r
    return [("elevation within a quarter turn", And(el >= -90, el <= 90)),
            ("declination within a quarter turn", And(dec >= -90, dec <= 90)),
            ("azimuth within a turn", And(az >= 0, az <= 360)),
            ("right ascension within a turn", And(rta >= 0, rta <= 360))]


add("sunangle: physical ranges", dict(TIME, lat=LAT, lon=LON), call, ["qc.sunangle"], post=ranges, budget=300, feas_ms=FEAS)
add("sunangle: elevation and declination", dict(TIME, lat=LAT, lon=LON), call, ["qc.sunangle"], budget=300, feas_ms=FEAS,
    post=lambda a, r: [("elevation", eq(r[1], sun(a)[0], 1e-5)), ("declination", eq(r[5], sun(a)[1], 1e-6))], samples=2000)


# ------------------------------------------------------------- day or night

def elevation(year, day, hours, lat, lon):
    """the sun's elevation; for symbols any function of the instant and the place will do"""
    E = core.engine()
    if E is not None and not getattr(E, "exact", False):
        t = core.tofloat(days1980(year, day) * 24 + hours)
        f = z3.Function("elevation", *[z3.RealSort()] * 4)
        return core.SNum(f(*[z3.simplify(core.real(*core.lift(x))) for x in (t, lat, lon)]), "r")
    return formula(year, day, hours, lat, lon)[0]


sunangle = Contract("sunangle", {k: None for k in ("year", "day", "hour", "minute", "sec", "zone", "dasvtm", "lat", "lon")},
                    None, [],
                    pre=lambda a: And(a.day > 0, a.day <= 366, a.hour >= 0, a.hour < 24, a.minute >= 0, a.minute < 60,
                                      a.sec >= 0, a.sec < 60, a.lat <= 90, a.lat >= -90),
                    spec=lambda a: [0., elevation(a.year, a.day, hours_of(a), a.lat, a.lon), 0., 0., 0., 0.])
USE = {"qc.sunangle": sunangle}


def moved(x):
    """the equator and the prime meridian count as 0.0001 degrees off"""
    return Ite(x == 0, 0.0001, x)


def doy(a):
    return ordinal(a.year, a.month, a.day) - ordinal(a.year, 1, 1) + 1


def wrong(a):
    return Or(Not(validdate(a.year, a.month, a.day)), a.hour < 0, a.hour > 24, a.lat < -90, a.lat > 90)


def day_spec(a):
    if a.month is None or a.day is None or a.hour is None or a.lat is None:
        return Raised("AssertionError")
    if a.year is None:
        if bool(Or(a.month < 1, a.month > 12, a.day < 1, a.day > 31, a.hour < 0, a.hour > 24, a.lat < -90, a.lat > 90)):
            return Raised("AssertionError")
        return 0
    if bool(wrong(a)):
        return Raised("AssertionError")
    return b(elevation(a.year, doy(a), a.hour - a.since, moved(a.lat), moved(a.lon)) > 0)


def clear(limit, since=True):
    """the sun is not within rounding of the limit"""
    def g(a):
        if None in (a.year, a.month, a.day, a.hour, a.lat, a.lon) or bool(wrong(a)):
            return True
        h = a.hour - a.since if since else a.hour
        return abs(elevation(a.year, doy(a), h, moved(a.lat), moved(a.lon)) - limit(a)) > 1e-6
    return g


def plain(a):
    return None not in (a.year, a.month, a.day, a.hour, a.lat, a.lon) and not wrong(a)


def horizon(a, rng):
    """an hour about which the sun rises or sets, within a degree"""
    if rng.random() < 0.3 or not plain(a):
        return
    f = lambda h: elevation(a.year, doy(a), h - a.since, moved(a.lat), moved(a.lon))
    hs = list(range(0, 24))
    rng.shuffle(hs)
    for h in hs:
        if (f(h) > 0) != (f(h + 1) > 0):
            lo, hi = float(h), float(h + 1)
            for _ in range(12):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if (f(m) > 0) == (f(h) > 0) else (lo, m)
            a.hour = min(23.999, max(0., lo + rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -1)))
            return


def about(a, rng):
    """a limit about the sun's elevation"""
    if rng.random() < 0.7 and plain(a):
        a.limit = elevation(a.year, doy(a), a.hour, moved(a.lat), moved(a.lon)) + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0)


DATE = dict(year=Opt(Int(1850, 2100, extra=(1979, 1980, 1981, 1899, 1900, 2000))), month=Opt(Int(-1, 14, extra=(1, 2, 3, 12))),
            day=Opt(Int(-1, 33, extra=(1, 28, 29, 30, 31))), hour=Opt(Real(-1, 25, extra=(0, 0.5, 23.5, 24))),
            lat=Opt(Real(-100, 100, extra=(0, 90, -90))), lon=LON)
add("day_test", dict(DATE, since=Real(0, 24, lo_open=True, extra=(1, 0.5))),
    lambda W, a: W.qc.day_test(a.year, a.month, a.day, a.hour, a.lat, a.lon, a.since),
    ["qc.day_test", "qc.dayinyear"], use=USE, spec=day_spec, guard=clear(lambda a: 0), samples=3000, aim=horizon)
add("day_test: an hour unless told otherwise", dict(DATE, since=Const(1.0)),
    lambda W, a: W.qc.day_test(a.year, a.month, a.day, a.hour, a.lat, a.lon), ["qc.day_test"], use=USE, spec=day_spec,
    guard=clear(lambda a: 0), samples=3000, aim=horizon)


def track_spec(a):
    if None in (a.year, a.month, a.day, a.hour, a.lat, a.lon) or bool(wrong(a)) or bool(a.hour == 24):
        return Raised("AssertionError")
    return elevation(a.year, doy(a), a.hour, moved(a.lat), moved(a.lon)) > a.limit


add("track_day_test", dict(DATE, lon=Opt(LON), limit=Real(-90, 90, extra=(-2.5, 0))),
    lambda W, a: W.trackqc.track_day_test(a.year, a.month, a.day, a.hour, a.lat, a.lon, a.limit),
    ["trackqc.track_day_test"], use=USE, spec=track_spec, pre=lambda a: a.hour is None or a.hour != 24, guard=clear(lambda a: a.limit, False), samples=3000, aim=about)
