"""C03: position, time and date validity."""
from .common import *

CONTRACTS = Specs()
add = CONTRACTS.add

nan = float("nan")
coord = OneOf(Real(extra=(-90, 90, -180, 360)), Enum(None, nan))

add("position_check", dict(lat=coord, lon=coord), lambda W, a: W.qc.position_check(a.lat, a.lon),
    ["qc.position_check"],
    spec=lambda a: Raised("AssertionError") if a.lat is None or a.lon is None or a.lat != a.lat or a.lon != a.lon else
    b(Not(And(a.lat >= -90, a.lat <= 90, a.lon >= -180, a.lon <= 360))))

add("time_check", dict(h=Opt(Real(extra=(0, 24)))), lambda W, a: W.qc.time_check(a.h), ["qc.time_check"],
    spec=lambda a: 1 if a.h is None else b(Not(And(a.h >= 0, a.h < 24))))


def date_spec(a):
    if a.y is None or a.m is None:
        return Raised("AssertionError")
    if a.d is None:
        return 1
    if a.m < 1 or a.m > 12:
        return 1
    return b(Not(And(a.y >= 1850, a.y <= 2024, a.d >= 1, a.d <= mlen(a.y, a.m))))


add("date_check", dict(y=Opt(Int(extra=(1849, 1850, 1900, 2000, 2004, 2023, 2024, 2025)), 0.05),
                       m=Opt(Int(-20, 30, extra=(0, 1, 2, 12, 13)), 0.05), d=Opt(Int(-5, 40, extra=(0, 28, 29, 30, 31, 32)))),
    lambda W, a: W.qc.date_check(a.y, a.m, a.d), ["qc.date_check", "qc.get_month_lengths"],
    spec=date_spec)
