"""C02: verdicts of the single-value checks."""
from pyvc.contract import Contract
from pyvc.values import *

CONTRACTS = []


def add(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


def b(x):
    return Ite(x, 1, 0)


def far(x, y, d):
    return Or(x - y > d, y - x > d)


val = Opt(Real())

add("hard_limit", dict(val=val, lo=Real(), hi=Real()),
    lambda W, a: W.qc.hard_limit(a.val, [a.lo, a.hi]), ["qc.hard_limit"],
    spec=lambda a: Raised("AssertionError") if a.hi <= a.lo else
    1 if a.val is None else b(Or(a.val < a.lo, a.val > a.hi)))

add("climatology_check", dict(v=val, c=val, limit=Opt(Real())),
    lambda W, a: W.qc.climatology_check(a.v, a.c, a.limit), ["qc.climatology_check"],
    spec=lambda a: 1 if None in (a.v, a.c, a.limit) else b(far(a.v, a.c, a.limit)))

add("climatology_check with the default limit", dict(v=val, c=val),
    lambda W, a: W.qc.climatology_check(a.v, a.c), ["qc.climatology_check"],
    spec=lambda a: 1 if None in (a.v, a.c) else b(far(a.v, a.c, 8)))


def plus_stdev(a):
    if a.lims[1] <= a.lims[0] or a.limit <= 0:
        return Raised("AssertionError")
    if None in (a.v, a.c, a.s):
        return 1
    s = Min(Max(a.s, a.lims[0]), a.lims[1])
    return b(far(a.v, a.c, a.limit * s))


add("climatology_plus_stdev_check", dict(v=val, c=val, s=Opt(Real(0)), lims=Tup(Real(0, lo_open=True), Real()), limit=Real()),
    lambda W, a: W.qc.climatology_plus_stdev_check(a.v, a.c, a.s, a.lims, a.limit),
    ["qc.climatology_plus_stdev_check"], spec=plus_stdev,
    note="standard deviations are not negative, the lower cap is positive")


def lowbar(a):
    if a.limit <= 0:
        return Raised("AssertionError")
    if None in (a.v, a.c, a.s):
        return 1
    return b(And(far(a.v, a.c, a.limit * a.s), far(a.v, a.c, a.lowbar)))


add("climatology_plus_stdev_with_lowbar", dict(v=val, c=val, s=Opt(Real(0, lo_open=True)), limit=Real(), lowbar=Real()),
    lambda W, a: W.qc.climatology_plus_stdev_with_lowbar(a.v, a.c, a.s, a.limit, a.lowbar),
    ["qc.climatology_plus_stdev_with_lowbar"], spec=lowbar,
    note="standard deviations are positive")

add("value_check", dict(v=val), lambda W, a: W.qc.value_check(a.v), ["qc.value_check"],
    spec=lambda a: 1 if a.v is None else 0)

add("no_normal_check", dict(v=val), lambda W, a: W.qc.no_normal_check(a.v), ["qc.no_normal_check"],
    spec=lambda a: 1 if a.v is None else 0)

add("supersat_check", dict(td=val, t=val), lambda W, a: W.qc.supersat_check(a.td, a.t), ["qc.supersat_check"],
    spec=lambda a: 1 if None in (a.td, a.t) else b(a.td > a.t))

add("sst_freeze_check", dict(v=val, u=Opt(Real()), f=Opt(Real()), n=Real()),
    lambda W, a: W.qc.sst_freeze_check(a.v, a.u, a.f, a.n), ["qc.sst_freeze_check"],
    spec=lambda a: Raised("AssertionError") if None in (a.u, a.f) else
    0 if a.v is None else b(a.v < a.f - a.n * a.u))

add("sst_freeze_check with default freezing point", dict(v=val, u=Real(0, 20)),
    lambda W, a: W.qc.sst_freeze_check(a.v, a.u), ["qc.sst_freeze_check"],
    spec=lambda a: 0 if a.v is None else b(a.v < -1.8 - 2 * a.u))

add("sst_freeze_check with all defaults", dict(v=val),
    lambda W, a: W.qc.sst_freeze_check(a.v), ["qc.sst_freeze_check"],
    spec=lambda a: 0 if a.v is None else b(a.v < -1.8))

add("wind_consistency", dict(w=Opt(Real()), d=Opt(Int(0, 400, extra=(361, 362, 360, 363))), lim=Real()),
    lambda W, a: W.qc.wind_consistency(a.w, a.d, a.lim), ["qc.wind_consistency"],
    spec=lambda a: 0 if a.d is None else
    b(a.d == 361) if a.w is None else
    b(Or(And(a.d == 361, a.w != 0), And(a.d == 362, a.w > a.lim))),
    note="a missing wind speed is no calm: direction 361 fails, direction 362 passes")
